//! Text synchronisation: after any history of changes the server knows the document as if it had just been opened.
use crate::{c03::letter, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use tower_lsp::lsp_types::*;

pub fn change(l: &mut LspFiles, uri: &str, changes: Vec<(Option<Range>, String)>) {
    l.did_change(DidChangeTextDocumentParams {
        text_document: VersionedTextDocumentIdentifier::new(url(uri), 1),
        content_changes: changes
            .into_iter()
            .map(|(range, text)| TextDocumentContentChangeEvent { range, range_length: None, text })
            .collect(),
    });
}

/// Everything that can be asked about a document without a position.
pub fn view(l: &LspFiles, uri: &str) -> Vec<String> {
    let mut v = vec![];
    for o in l.read_objects(url(uri)).unwrap_or_default() {
        v.push(format!("{o:?}"));
    }
    for s in symbols(l, uri).unwrap_or_default() {
        v.push(format!("{} {:?} {:?}", s.name, s.kind, s.range));
    }
    v
}
pub fn sorted(d: Option<Diags>) -> Option<Vec<String>> {
    let mut d: Vec<String> = d?.iter().map(|(k, i)| format!("{:?} {} {} {} {}", i.start, k, i.name, i.end, i.fields.len())).collect();
    d.sort();
    Some(d)
}

/// The text an edit leaves behind, as the protocol defines it.
pub fn splice(text: &str, a: usize, b: usize, with: &str) -> String {
    format!("{}{}{}", &text[..a], with, &text[b..])
}
/// Position of a byte offset, columns in UTF-16 units.
pub fn position(text: &str, at: usize) -> Position {
    let before = &text[..at];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    Position::new(line, before[start..].encode_utf16().count() as u32)
}
/// Byte offset of a position: columns count UTF-16 units, past the end of a line means its end, past the last
/// line means the end of the text; inside a character means its start.
pub fn resolve(text: &str, p: Position) -> usize {
    let mut at = 0;
    for (i, l) in text.split('\n').enumerate() {
        if i as u32 == p.line {
            let mut units = 0;
            for c in l.strip_suffix('\r').unwrap_or(l).chars() {
                units += c.len_utf16() as u32;
                if p.character < units {
                    return at;
                }
                at += c.len_utf8();
            }
            return at;
        }
        at += l.len() + 1;
    }
    text.len()
}
/// A symbolic position: any 32-bit line and column.
pub fn pos(n: &str) -> Position {
    let l = word(&format!("{n}.line"));
    Position::new(l, word(&format!("{n}.col")))
}
/// A position the editor can send for this text: on a character boundary, not past line or text end.
fn proper(text: &str, p: Position) -> bool {
    position(text, resolve(text, p)) == p
}

pub fn same(l: &LspFiles, m: &LspFiles, d: Option<Diags>, e: Option<Diags>) {
    check(view(l, A) == view(m, A), "the same objects and symbols as after opening");
    check(sorted(d) == sorted(e), "the same diagnostics as after opening");
    cover("compared");
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}

// One replacement anywhere, positions unconstrained.
entry!(h_c01_edit, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    let text = format!("{{% set g = 1 %}}é\n{{{{ {x} }}}}😀{{{{ h }}}}");
    open(&mut l, A, &text);
    let (p, q) = (pos("start"), pos("end"));
    let (a, b) = (resolve(&text, p), resolve(&text, q));
    assume(p <= q && (b - a <= 1 || b - a == 7 || b == text.len()));
    let with = ["", "g", "\n", "{{ h }}", "{# \n #}", "é😀"][choose("with", 6)];
    let after = splice(&text, a, b, with);
    let e = open(&mut m, A, &after);
    assume(e.is_some());
    change(&mut l, A, vec![(Some(Range::new(p, q)), with.to_string())]);
    let d = save(&mut l, A);
    note(&after);
    same(&l, &m, d, e);
});

// The same in a document with CRLF line breaks.
entry!(h_c01_crlf, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    let text = format!("é\r\n{{% set g = 1 %}}\r\n{{{{ {x} }}}}{{{{ h }}}}\r\n");
    open(&mut l, A, &text);
    let (p, q) = (pos("start"), pos("end"));
    let (a, b) = (resolve(&text, p), resolve(&text, q));
    assume(p <= q && (b == a || b - a == 7 || b == text.len()));
    let with = ["", "\r\n", "{{ h }}\r\n", "g"][choose("with", 4)];
    let after = splice(&text, a, b, with);
    let e = open(&mut m, A, &after);
    assume(e.is_some());
    change(&mut l, A, vec![(Some(Range::new(p, q)), with.to_string())]);
    let d = save(&mut l, A);
    note(&after);
    same(&l, &m, d, e);
});

// A text typed anywhere, which can break the document for a while, and taken back.
entry!(h_c01_undo, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    let text = format!("{{% if g %}}\n{{% set {x} = 1 %}}é{{{{ h }}}}\n{{% endif %}}{{{{ {x} }}}}");
    let e = open(&mut m, A, &text);
    open(&mut l, A, &text);
    let with = ["{% ", "{{ é\n", "{#", "\n\n", "😀 %}", "\"", "{% endif %}\n"][choose("with", 7)];
    let p = pos("at");
    assume(proper(&text, p));
    let a = resolve(&text, p);
    change(&mut l, A, vec![(Some(Range::new(p, p)), with.to_string())]);
    let saved = choose("saved", 2) == 1;
    if saved {
        save(&mut l, A);
    }
    let longer = splice(&text, a, a, with);
    change(&mut l, A, vec![(Some(Range::new(p, position(&longer, a + with.len()))), String::new())]);
    let d = save(&mut l, A);
    note(&text);
    same(&l, &m, d, e);
});

// Several changes in one notification: each range is meant for the text the changes before it left.
entry!(h_c01_batch, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let text = "{% set g = 1 %}{{ g }}";
    open(&mut l, A, text);
    let p = pos("first");
    assume(proper(text, p));
    let a = resolve(text, p);
    let with = ["\n", "é", "{{ h }}\n", "h"][choose("with", 4)];
    let second = splice(text, a, a, with);
    let q = pos("second");
    assume(proper(&second, q));
    let b = resolve(&second, q);
    let with2 = ["\n", "{{ k }}"][choose("with2", 2)];
    let third = splice(&second, b, b, with2);
    let e = open(&mut m, A, &third);
    assume(e.is_some());
    change(&mut l, A, vec![(Some(Range::new(p, p)), with.to_string()), (Some(Range::new(q, q)), with2.to_string())]);
    let d = save(&mut l, A);
    note(&third);
    same(&l, &m, d, e);
});

// A change without a range replaces the text; edits before and after it.
entry!(h_c01_full, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    open(&mut l, A, "{% set g = 1 %}\n{{ g }}\n{% set h = 1 %}");
    let mut changes = vec![];
    if choose("before", 2) == 1 {
        changes.push((Some(Range::new(Position::new(1, 0), Position::new(2, 3))), "a".to_string()));
    }
    let text = [format!("{{{{ {x} }}}}"), format!("\n\n{{% set {x} = 1 %}}\n{{{{ g }}}}\n"), format!("{{{{ {x} }}}}\né{{{{ k }}}}")][choose("text", 3)].clone();
    changes.push((None, text.clone()));
    let mut after = text.clone();
    if choose("after", 2) == 1 {
        let p = pos("at");
        assume(proper(&text, p));
        let a = resolve(&text, p);
        after = splice(&text, a, a, "\n{{ q }}");
        changes.push((Some(Range::new(p, p)), "\n{{ q }}".to_string()));
        cover("edited after");
    }
    let together = choose("together", 2) == 1;
    let e = open(&mut m, A, &after);
    assume(e.is_some());
    if together {
        change(&mut l, A, changes);
    } else {
        for c in changes {
            change(&mut l, A, vec![c]);
        }
    }
    let d = save(&mut l, A);
    note(&after);
    same(&l, &m, d, e);
});

// Backend sources: what they define for templates after an edit.
entry!(h_c01_backend, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    let rs = "file:///tmp/vsr/s/m.rs";
    let text = format!("// é\nfn f() {{\n t.render(context! {{ {x} => 1, g => 2 }});\n}}\n");
    open(&mut l, rs, &text);
    let (p, q, with) = match choose("edit", 6) {
        0 => ((0, 0), (0, 0), "// x\n"),
        1 => ((0, 4), (0, 4), " 😀 /* "),
        2 => ((2, 23), (2, 29), "k => 3"),
        3 => ((2, 23), (2, 23), "\n  j => 7, "),
        4 => ((1, 0), (1, 0), "fn h() { t.render(context! { q => 1 }); }"),
        _ => ((0, 2), (2, 0), "\nfn g() {"),
    };
    let at = |p: (u32, u32)| Position::new(p.0, p.1);
    let after = splice(&text, resolve(&text, at(p)), resolve(&text, at(q)), with);
    open(&mut m, rs, &after);
    change(&mut l, rs, vec![(Some(Range::new(at(p), at(q))), with.to_string())]);
    save(&mut l, rs);
    note(&after);
    let names = |l: &LspFiles| symbols(l, rs).unwrap_or_default().iter().map(|s| format!("{} {:?}", s.name, s.range)).collect::<Vec<_>>();
    check(names(&l) == names(&m), "the same definitions as after opening");
    let d = open(&mut l, A, "{{ g }}{{ k }}{{ j }}{{ q }}");
    let e = open(&mut m, A, "{{ g }}{{ k }}{{ j }}{{ q }}");
    same(&l, &m, d, e);
});

// A document typed key by key, broken most of the time.
entry!(h_c01_typing, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    let text = "{% set g = 1 %}\n{% if g %}{{ g }}{% endif %}\n{{ h }}";
    open(&mut l, A, text);
    let typed = [
        format!("{{{{ {x} }}}}"),
        format!("{{% set {x} = 1 %}}"),
        format!("{{% for {x} in h %}}{{{{ {x} }}}}\n{{% endfor %}}"),
        format!("{{# {x} #}}{{{{ \"é\" | abs }}}}"),
        format!("{{%- with {x} = 1 -%}}{{% endwith %}}"),
    ][choose("typed", 5)].clone();
    let at = [0, 7, 15, 16, 26, 33, 42, text.len()][choose("at", 8)];
    let auto = choose("auto", 2) == 1;
    let mut now = text.to_string();
    let mut a = at;
    for c in typed.chars() {
        // editors can close a brace themselves, and typing it then replaces it
        let over = auto && c == '}' && now[a..].starts_with('}');
        let q = if over { position(&now, a + 1) } else { position(&now, a) };
        let with = if auto && c == '{' { "{}".to_string() } else { c.to_string() };
        change(&mut l, A, vec![(Some(Range::new(position(&now, a), q)), with.clone())]);
        now = splice(&now, a, if over { a + 1 } else { a }, &with);
        a += c.len_utf8();
    }
    let e = open(&mut m, A, &now);
    let d = save(&mut l, A);
    note(&now);
    check(view(&l, A) == view(&m, A), "the same objects and symbols as after opening");
    if e.is_some() {
        check(sorted(d) == sorted(e), "the same diagnostics as after opening");
        cover("compared");
    }
});

// What is offered while the document is broken.
entry!(h_c01_broken, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    let x = letter("x");
    let text = format!("{{% set g = 1 %}}\n{{{{ {x} }}}}é{{{{ h }}}}\n{{% if g %}}a{{% endif %}}");
    open(&mut l, A, &text);
    let with = ["{% ", "{{ ", "{{ é | ", "{% include \"", "{{ \n}}", "{{ g is "][choose("with", 6)];
    let p = pos("at");
    assume(proper(&text, p));
    let a = resolve(&text, p);
    let after = splice(&text, a, a, with);
    open(&mut m, A, &after);
    change(&mut l, A, vec![(Some(Range::new(p, p)), with.to_string())]);
    let q = position(&after, a + with.len());
    save(&mut l, A);
    note(&after);
    check(view(&l, A) == view(&m, A), "the same objects and symbols as after opening");
    check(format!("{:?}", complete(&l, A, q.line, q.character)) == format!("{:?}", complete(&m, A, q.line, q.character)), "the same completion as after opening");
    check(format!("{:?}", hover(&l, A, q.line, q.character)) == format!("{:?}", hover(&m, A, q.line, q.character)), "the same hover as after opening");
    cover("compared");
});
