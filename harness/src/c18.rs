//! The Node API: templates embedded in other documents.
use crate::{c03::letter, c05, entry, rt::*, util::*};
use jinja_lsp::filter::init_filter_completions;
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::objects::CompletionType;
use tower_lsp::lsp_types::*;
use vnode::{Action, JsCompletionType, JsIdentifier, JsPosition, NodejsLspFiles};

const HOST: &str = "file:///x/h.py";
fn uri(file: &str, id: u32, ext: &str) -> String {
    url(&format!("file:///home/{file}.{id}.{ext}")).to_string()
}
fn at(p: (u32, u32)) -> JsPosition {
    JsPosition { line: p.0, character: p.1 }
}
fn python(l: &mut LspFiles) {
    l.parsers.update_backend("python");
    l.queries.update_backend("python");
}
/// An identifier, moved up by `line` lines.
fn ident(i: &JsIdentifier, line: u32) -> String {
    let (a, b) = (&i.start, &i.end);
    format!("{} {:?} {}:{} {}:{}", i.name, i.identifier_type, a.line.wrapping_sub(line), a.character, b.line.wrapping_sub(line), b.character)
}

/// A template at a line and column of a host, another one in the same host and one in another, and the same for the library.
struct Embedded {
    line: u32,
    text: String,
    uri: String,
}
fn embed(n: &mut NodejsLspFiles, m: &mut LspFiles, file: &str) -> Embedded {
    let line = word("first");
    assume(line <= 1 << 30);
    let col = split(upto("col0", 3) as u64) as usize;
    let y = letter("y");
    let d = c05::shape(choose("shape", c05::SHAPES), "g", &y, "h");
    let text = format!("{}{}", " ".repeat(col), d.s);
    let other = "{% set k = 1 %}";
    n.add_one(2, file.into(), other.into(), 77, "jinja".into(), None);
    open(m, &uri(file, 2, "jinja"), other);
    let c = if col == 0 { None } else { Some(col as u32) };
    let links = n.add_one(1, file.into(), d.s.clone(), line, "jinja".into(), c);
    check(links.is_empty(), "without actions there are no links");
    let uri = uri(file, 1, "jinja");
    open(m, &uri, &text);
    note(&text);
    Embedded { line, text, uri }
}

// What is known of the template is what the library knows of it, moved to where it stands.
entry!(h_c18_known, {
    let mut n = NodejsLspFiles::new();
    let mut m = LspFiles::default();
    python(&mut m);
    let e = embed(&mut n, &mut m, HOST);
    let got = n.get_variables(e.uri.clone(), e.line);
    check(got.is_some(), "an embedded template is known");
    let mut got: Vec<String> = got.unwrap_or_default().iter().map(|i| ident(i, e.line)).collect();
    got.sort();
    let none = vec![];
    let want = m.variables.get(&e.uri).unwrap_or(&none);
    let mut want: Vec<String> = want
        .iter()
        .map(|i| {
            let (a, b) = (i.start, i.end);
            format!("{} {:?} {}:{} {}:{}", i.name, i.identifier_type, a.row, a.column, b.row, b.column)
        })
        .collect();
    want.sort();
    check(got == want, "definitions are those of the template, where they stand in the host");
    cover("known");
});

// What is at a position of the host.
entry!(h_c18_position, {
    let mut n = NodejsLspFiles::new();
    let mut m = LspFiles::default();
    python(&mut m);
    let filters = init_filter_completions();
    let file = [HOST, "h.py", "x y"][choose("file", 3)];
    let e = embed(&mut n, &mut m, file);
    let p = (word("line"), word("col"));
    let f = || file.to_string();
    let h = n.hover(1, f(), e.line, at(p));
    let g = n.goto_definition(1, f(), e.line, at(p)).unwrap_or_default();
    let c = n.complete(1, f(), e.line, at(p));
    if p.0 < e.line {
        check(h.is_none() && g.is_empty() && c.is_none(), "there is nothing before the template");
        return cover("before");
    }
    let q = (p.0 - e.line, p.1);
    // hover
    let want = hover(&m, &e.uri, q.0, q.1).and_then(|(i, kind)| {
        let (a, b, name) = (i.start, i.end, i.name.clone());
        let what = if kind == CompletionType::Filter {
            filters.iter().find(|f| f.name == name)?.desc.to_string()
        } else {
            format!("{}\n\n---\n**{name}**", m.data_type(url(&e.uri), i)?.completion_detail())
        };
        Some(format!("{what} {}:{} {}:{}", a.row, a.column, b.row, b.column))
    });
    let got = h.map(|h| {
        let r = h.range.unwrap();
        let l = |x: u32| x.wrapping_sub(e.line);
        format!("{} {}:{} {}:{}", h.value, l(r.start.line), r.start.character, l(r.end.line), r.end.character)
    });
    check(got == want, "hover is that of the template, where it stands in the host");
    if want.is_some() {
        cover("hover");
    }
    // go to definition, within the template
    let want: Vec<Loc> = match goto(&m, &e.uri, q.0, q.1) {
        Some(GotoDefinitionResponse::Scalar(l)) if l.uri.as_str() == e.uri => locations(&Some(GotoDefinitionResponse::Scalar(l))),
        _ => vec![],
    };
    check(g.iter().all(|g| g.uri == file), "a definition is in the host");
    let got: Vec<Loc> = g
        .iter()
        .map(|g| {
            let r = &g.range;
            (e.uri.clone(), (r.start.line.wrapping_sub(e.line), r.start.character), (r.end.line.wrapping_sub(e.line), r.end.character))
        })
        .collect();
    check(got == want, "the definition is that of the template, where it stands in the host");
    if !want.is_empty() {
        cover("definition");
    }
    // completion
    let mut got: Vec<String> = c
        .unwrap_or_default()
        .into_iter()
        .map(|c| {
            let t = match c.completion_type {
                JsCompletionType::Filter => "filter",
                JsCompletionType::Identifier => "name",
                JsCompletionType::Snippets => "snippet",
            };
            format!("{t} {} {}", c.label, c.description)
        })
        .collect();
    let mut want: Vec<String> = match complete(&m, &e.uri, q.0, q.1) {
        Some((CompletionType::Filter, _)) => filters.iter().map(|f| format!("filter {} {}", f.name, f.desc)).collect(),
        Some((CompletionType::Identifier, _)) => {
            let v = m.read_variables(&url(&e.uri), Position::new(q.0, q.1), None, None).unwrap_or_default();
            v.into_iter().map(|c| format!("name {} {}", c.label, c.detail.unwrap_or_default())).collect()
        }
        Some((CompletionType::IncompleteIdentifier { .. }, _)) => return,
        _ => vec![],
    };
    got.sort();
    want.sort();
    check(got == want, "what is offered is what the template offers");
    if !want.is_empty() {
        cover("offered");
    }

});

fn action(name: &str) -> Action {
    Action { name: name.into(), description: format!("about {name}") }
}
// Objects that actions name are links.
entry!(h_c18_links, {
    let mut n = NodejsLspFiles::new();
    let line = word("first");
    assume(line <= 1 << 30);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let dotted = choose("dotted", 2) == 1;
    let name = if dotted { format!("{x}.{z}") } else { x.clone() };
    let col = split(upto("col0", 2) as u64) as u32;
    n.save_link_hint(Some(vec![action(&name), action("w.w")]), [None, Some("temp".into())][choose("hint", 2)].clone());
    let py = choose("py", 2) == 1;
    let text = if py { format!("a = 1\n{y}.h(1)\n\nb = {y}.z\n") } else { format!("ab\n{{{{ {y}.h }}}}{{% if {y} %}}{{% endif %}}\n{{{{ {y}.z | upper }}}}") };
    let mut want = vec![];
    let mut link = |n: &str, l: u32, a: u32, b: u32| {
        if n == name {
            want.push(format!("{n} Link {l}:{a} {l}:{b}"));
        }
    };
    if py {
        link(&format!("{y}.h"), 1, 0, 3);
        link(&format!("{y}.z"), 3, 4, 7);
    } else {
        link(&format!("{y}.h"), 1, 3, 6);
        link(&y, 1, 15, 16);
        link(&format!("{y}.z"), 2, 3, 6);
    }
    let ext = if py { "py" } else { "jinja" };
    // columns of the first line only
    let got = n.add_one(1, HOST.into(), text.clone(), line, ext.into(), Some(if py { 0 } else { col }));
    note(&text);
    note(&name);
    let mut got: Vec<String> = got
        .iter()
        .map(|i| {
            let full = if py || !dotted { i.name.clone() } else { name.clone() };
            check(i.name == full || i.name == y, "a link has the name of its object");
            ident(&JsIdentifier { name: full, ..i.clone() }, line)
        })
        .collect();
    got.sort();
    want.sort();
    check(got == want, "exactly the objects that an action names are links");
    if !want.is_empty() {
        cover("link");
    }
    n.remove_temp_link_hint(None);
    check(n.add_one(1, HOST.into(), text, line, ext.into(), None).is_empty(), "without actions there are no links");
    cover("removed");
});

// Forgetting a host forgets all of its templates and nothing else.
entry!(h_c18_forget, {
    let mut n = NodejsLspFiles::new();
    let y = letter("y");
    let text = format!("{{% set {y} = 1 %}}{{{{ {y} }}}}");
    let files = [HOST, "file:///x/h.pyi", "file:///x/hh.py", "h.py", "x y.py", "/x/h.py"];
    for f in files {
        n.add_one(1, f.into(), text.clone(), 7, "jinja".into(), None);
        n.add_one(12, f.into(), text.clone(), 7, "jinja".into(), None);
    }
    let gone = choose("gone", files.len());
    n.delete_all(files[gone].into());
    for (i, f) in files.iter().enumerate() {
        for id in [1, 12] {
            let v = n.get_variables(uri(f, id, "jinja"), 7);
            let g = n.goto_definition(id, f.to_string(), 7, JsPosition { line: 7, character: 18 });
            check(v.is_some() != (i == gone), "exactly the templates of the host are forgotten");
            check(g.is_some_and(|g| g.len() == 1) != (i == gone), "nothing is found in a forgotten template");
        }
    }
    n.add_one(1, files[gone].into(), "{% set v = 1 %}".into(), 0, "jinja".into(), None);
    let v = n.get_variables(uri(files[gone], 1, "jinja"), 3).unwrap_or_default();
    check(v.len() == 1 && ident(&v[0], 3).starts_with("v SetVariable 0:7 0:8"), "a host can be added again");
    cover("forgotten");
});

// Names of actions, under a position.
entry!(h_c18_actions, {
    let mut n = NodejsLspFiles::new();
    let (x, y) = (letter("x"), letter("y"));
    let hint = [None, Some("temp"), Some("file:///temp")][choose("hint", 3)];
    let name = format!("{x}{}", ["", ".z"][choose("dotted", 2)]);
    n.save_link_hint(Some(vec![action("w.w"), action(&name)]), hint.map(String::from));
    let local = choose("local", 2) == 1;
    let line = word("first");
    assume(line <= 1 << 30);
    let text = format!("{}\n{{{{ {y}.z }}}}", if local { format!("{{% set {y} = 1 %}}") } else { "ab".into() });
    n.add_one(1, HOST.into(), text.clone(), line, "jinja".into(), None);
    note(&text);
    note(&name);
    let p = (line + 1, word("col"));
    let h = n.hover(1, HOST.into(), line, at(p));
    let g = n.goto_definition(1, HOST.into(), line, at(p)).unwrap_or_default();
    let inside = p.1 >= 3 && p.1 <= 4;
    if !inside {
        // the field belongs to the same dotted name
        assume(p.1 < 3 || p.1 > 6);
        check(!g.iter().any(|g| g.is_backend), "nothing to go to outside of a name");
        return;
    }
    let hit = x == y;
    let temp = hint != Some("file:///temp");
    check(h.is_some() == (hit || local), "a hinted or defined name is hovered");
    if hit && temp {
        check(h.is_some_and(|h| h.value == format!("about {name}")), "hover shows what a hint says");
        cover("hinted");
    }
    if local {
        check(g.len() == 1 && g[0].uri == HOST && g[0].range.start.line == line && !g[0].is_backend, "a definition in the template comes first");
        cover("local");
    } else if hit && !temp {
        check(g.len() == 1 && g[0].is_backend && g[0].uri == format!("file:///temp-{name}"), "a hinted name leads to its hint");
        cover("leads");
    } else {
        check(g.is_empty(), "other names lead nowhere");
    }
});
