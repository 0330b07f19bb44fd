//! What is on disk when the server starts.
use crate::{c01::*, c03::letter, c08::T, c14::*, entry, rt::*, util::*};
use jinja_lsp::hooks::{walkdir, JinjaConfig};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::tree_builder::{JinjaDiagnostic, LangType};
use std::path::Path;
use tower_lsp::lsp_types::*;

// Which files are taken for templates and which for sources.
entry!(h_c15_kinds, {
    let c = JinjaConfig::default();
    let n = choose("len", 6);
    let ext = bytes("e", n, |b| b != b'/' && b != 0 && b < 128);
    let ext = String::from_utf8(ext).unwrap();
    let stem = ["a", "/t/a.html", "/t.html/b", ""][choose("stem", 4)];
    let name = format!("{stem}.{ext}");
    let got = c.file_ext(&Path::new(&name));
    let last = match ext.rsplit_once('.') {
        Some((_, e)) => Some(e),
        None if stem.is_empty() => None,
        None => Some(&ext[..]),
    };
    // `..` names no file
    let last = last.filter(|_| !(stem.is_empty() && ext == "."));
    let want = match last {
        Some("html" | "jinja" | "j2") => Some(LangType::Template),
        Some("rs" | "py") => Some(LangType::Backend),
        _ => None,
    };
    check(got == want, "html, jinja and j2 are templates, rs and py are sources, and nothing else is");
    cover(if want.is_some() { "taken" } else { "left out" });
});

/// The files of a workspace: path below the working directory, content, whether it is a template.
fn tree(x: &str, y: &str) -> Vec<(String, String, bool)> {
    let f = |p: &str, c: String, t: bool| (p.to_string(), c, t);
    vec![
        f("t/a.jinja", format!("{{% set g = 1 %}}\n{{{{ {x} }}}}{{% include 'd/b.html' %}}{{% include 'k' %}}"), true),
        f("t/d/b.html", format!("{{% macro {y}(h) %}}{{{{ h }}}}{{% endmacro %}}{{{{ {x} }}}}"), true),
        f("t/d/e/c.j2", format!("{{% block {x} %}}{{{{ {y} }}}}{{% endblock %}}"), true),
        f("t/p q/\u{e9}.html", format!("{{% set {y} = 1 %}}\n{{{{ g }}}}"), true),
        f("t/broken.html", "{% if ".to_string(), true),
        f("t/empty.html", String::new(), true),
        f("t/1/2/3/4/5/6/7/8/9/deep.html", format!("\r\n{{% set {x} = 1 %}}{{% set u = 1 %}}\r\n{{{{ {y} }}}}"), true),
        f("t/.i/.j.jinja", format!("{{% set v = {x} %}}"), true),
        f("t/big.html", format!("{}{{% set w = {x} %}}", "a\n".repeat(700)), true),
    ]
}
const RUST: &str = "fn f() { let t = env.get_template(\"d/b.html\"); render(context!(x => 1)); env.get_template(\"k\"); }\n";
const PYTHON: &str = "t = env.get_template('d/b.html')\nt.render(x=1)\nenv.get_template('k')\n";

fn uri(path: &str) -> String {
    Url::from_file_path(format!("{ROOT}/{path}")).unwrap().to_string()
}
/// Declares the files and returns the ones the server should know.
fn workspace(lang: &str, x: &str, y: &str) -> Vec<(String, String, bool)> {
    let mut all = tree(x, y);
    all.push(if lang == "python" { ("s/v/1/2/3/4/5/m.py".into(), PYTHON.into(), false) } else { ("s/v/1/2/3/4/5/m.rs".into(), RUST.into(), false) });
    for (p, c, _) in &all {
        file(&format!("{ROOT}/{p}"), c);
    }
    for p in ["t/a.html.bak", "t/jinja", "t/d/html", "s/README.md", "o/z.html", "o/z.rs"] {
        file(&format!("{ROOT}/{p}"), "{% set z = 1 %}");
    }
    dir(&format!("{ROOT}/t/x.html"));
    all
}
fn settle(l: &mut LspFiles, lang: &str) {
    if lang == "python" {
        l.parsers.update_backend("python");
        l.queries.update_backend("python");
    }
    l.config.templates = T.into();
}
fn due(l: &mut LspFiles, all: &[(String, String, bool)]) -> Vec<(String, Option<Diags>)> {
    for (p, c, _) in all {
        open(l, &uri(p), c);
    }
    all.iter().map(|(p, _, _)| (uri(p), save(l, &uri(p)))).collect()
}
fn kinds(d: &Diags) -> Vec<String> {
    let mut v: Vec<String> = d.iter().map(|(k, i)| format!("{k} {:?} {:?}", i.start, i.end)).collect();
    v.sort();
    v
}

// A workspace is read: everything is as if every file in it had been opened.
entry!(h_c15_scan, {
    let mut m = LspFiles::default();
    let lang = ["rust", "python"][choose("lang", 2)];
    let (x, y) = (letter("x"), letter("y"));
    let all = workspace(lang, &x, &y);
    let (templates, backend) = match choose("config", 5) {
        0 => (format!("{ROOT}/t"), vec![format!("{ROOT}/s")]),
        1 => ("./t".into(), vec!["./s/".into()]),
        2 => ("t/".into(), vec!["s/v".into(), "s".into()]),
        3 => (format!("{ROOT}/t"), vec![format!("{ROOT}/t/d"), "s/../s".into()]),
        _ => ("t/d/../".into(), vec![format!("{ROOT}/s/v/1/2/3/4/5/m.{}", if lang == "python" { "py" } else { "rs" })]),
    };
    let config = JinjaConfig { templates: templates.into(), backend, lang: lang.into(), user_defined: true, hide_undefined: None };
    let r = walkdir(&config);
    check(r.is_ok(), "a workspace is read");
    let Ok((got, l)) = r else { return };
    settle(&mut m, lang);
    let want = due(&mut m, &all);
    note(&format!("{x} {y}"));
    for (u, d) in &want {
        check(view(&l, u) == view(&m, u), "a file on disk is known as if opened");
        if u.ends_with("rs") || u.ends_with("py") {
            continue;
        }
        match got.get(u) {
            Some(g) => check(kinds(g) == d.as_ref().map_or(vec![], kinds), "a file on disk gets the diagnostics it would get when opened"),
            None => check(d.as_ref().is_none_or(|d| d.is_empty()), "a file on disk gets the diagnostics it would get when opened"),
        }
    }
    check(got.keys().all(|k| all.iter().any(|(p, _, t)| *t && uri(p) == *k)), "only templates get diagnostics");
    let list = |l: &LspFiles| {
        let c = l.read_templates(String::new(), Range::default(), Position::default(), None).unwrap_or_default();
        let mut v: Vec<String> = c.into_iter().map(|c| c.label).collect();
        v.sort();
        v
    };
    let mut names: Vec<String> = all.iter().filter(|f| f.2).map(|f| f.0["t/".len()..].to_string()).collect();
    names.sort();
    check(list(&l) == names, "exactly the templates on disk are known");
    cover("read");
});

// Requests about files nobody opened, at any position, and after one of them is opened.
entry!(h_c15_ask, {
    let mut m = LspFiles::default();
    let (x, y) = (letter("x"), "k".to_string());
    let all = workspace("rust", &x, &y);
    let config = JinjaConfig { templates: "t".into(), backend: vec!["s".into()], lang: "rust".into(), user_defined: true, hide_undefined: None };
    let Ok((_, mut l)) = walkdir(&config) else { return check(false, "a workspace is read") };
    settle(&mut m, "rust");
    due(&mut m, &all);
    note(&format!("{x} {y}"));
    let opened = choose("open", 5);
    if opened < 4 {
        open(&mut l, &uri(&all[opened].0), &all[opened].1);
    }
    let u = uri(&all[choose("of", 4)].0);
    let p = (word("line"), word("col"));
    let sort = |mut v: Vec<Loc>| {
        v.sort();
        v
    };
    check(sort(locations(&goto(&l, &u, p.0, p.1))) == sort(locations(&goto(&m, &u, p.0, p.1))), "definitions are found as if all had been opened");
    let (h, i) = (hover(&l, &u, p.0, p.1), hover(&m, &u, p.0, p.1));
    check(format!("{h:?}") == format!("{i:?}"), "hover answers as if all had been opened");
    if let (Some(h), Some(i)) = (h, i) {
        check(l.data_type(url(&u), h.0) == m.data_type(url(&u), i.0), "hover knows the same types");
    }
    check(format!("{:?}", complete(&l, &u, p.0, p.1)) == format!("{:?}", complete(&m, &u, p.0, p.1)), "completion answers as if all had been opened");
    let list = |l: &LspFiles| {
        let c = l.read_variables(&url(&u), Position::new(p.0, p.1), None, None).unwrap_or_default();
        let mut v: Vec<String> = c.into_iter().map(|c| format!("{} {:?}", c.label, c.detail)).collect();
        v.sort();
        v
    };
    check(list(&l) == list(&m), "the same names are offered");
    cover("asked");
});

// The server publishes what it found, for a client that has opened nothing.
entry!(h_c15_start, {
    let mut m = LspFiles::default();
    let (x, y) = (letter("x"), letter("y"));
    let all = workspace("rust", &x, &y);
    run(async {
        let s = session().await;
        settle(&mut m, "rust");
        // `session` names no sources
        for (u, d) in due(&mut m, &all[..all.len() - 1]) {
            let p = s.published(&u).unwrap_or_default();
            let d = d.unwrap_or_default();
            let mut a: Vec<String> = p.iter().map(|d| format!("{} {:?}", d.message, d.range)).collect();
            let mut b: Vec<String> = d
                .iter()
                .map(|(k, i)| {
                    let r = Range::new(
                        Position::new(i.start.row as u32, i.start.column as u32),
                        Position::new(i.end.row as u32, i.end.column as u32),
                    );
                    format!("{k} {r:?}")
                })
                .collect();
            a.sort();
            b.sort();
            check(a == b, "diagnostics of files on disk are published");
            check(d.iter().all(|d| d.0 != JinjaDiagnostic::TemplateNotFound) || !p.is_empty(), "a missing template is reported");
        }
        cover("published");
    });
});
