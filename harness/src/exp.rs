use crate::{entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;

entry!(h_exp_pos, {
    let mut l = LspFiles::default();
    open(&mut l, A, "{% set x = 1 %}{{ x }}\n{{ y | abs }}");
    let (r, c) = (word("line"), word("col"));
    let h = hover(&l, A, r, c);
    match h {
        Some((i, _)) => note(&format!("hover {}", i.name)),
        None => note("none"),
    }
});
entry!(h_exp_all, {
    let mut l = LspFiles::default();
    open(&mut l, A, "{% set x = 1 %}{{ x }}\n{{ y | abs }}");
    let (r, c) = (word("line"), word("col"));
    hover(&l, A, r, c);
    complete(&l, A, r, c);
    goto(&l, A, r, c);
});
entry!(h_exp_id, {
    let mut l = LspFiles::default();
    let id = bytes("x", 2, |b| b.is_ascii_lowercase());
    let y = bytes("y", 2, |b| b.is_ascii_lowercase());
    let s = format!("{{% for {} in items %}}{{{{ {} }}}}{{% endfor %}}", String::from_utf8(id.clone()).unwrap(), String::from_utf8(y.clone()).unwrap());
    let d = open(&mut l, A, &s).unwrap();
    note_val("n", d.len() as u64);
    note(&s);
});
entry!(h_exp_any, {
    let mut l = LspFiles::default();
    let id = bytes("x", 3, |b| b < 128 && b >= 32);
    let s = format!("{{{{ a{} }}}}", String::from_utf8(id.clone()).unwrap());
    let d = open(&mut l, A, &s).unwrap();
    note_val("n", d.len() as u64);
    note(&s);
});
