//! Edits: positions, offsets and the description of an edit that the parser needs.
use crate::{c01::*, entry, rt::*};
use jinja_lsp_queries::to_input_edit::ToInputEdit;
use ropey::Rope;
use tower_lsp::lsp_types::*;

/// A text of up to `n` characters of one, two and four bytes and line ends.
fn text(name: &str, n: usize) -> String {
    let mut s = String::new();
    for i in 0..choose(&format!("{name}.len"), n + 1) {
        s.push(['a', '\n', 'é', '😀'][choose(&format!("{name}{i}"), 4)]);
    }
    s
}
/// Row and byte column of an offset.
fn point(t: &str, at: usize) -> (usize, usize) {
    let b = &t[..at];
    (b.matches('\n').count(), at - b.rfind('\n').map_or(0, |i| i + 1))
}

fn edit(nt: usize, nw: usize) {
    let t = text("t", nt);
    let w = text("w", nw);
    let (p, q) = (pos("start"), pos("end"));
    let (a, b) = (resolve(&t, p), resolve(&t, q));
    assume(p <= q);
    let rope = Rope::from_str(&t);
    let e = rope.to_input_edit(Range::new(p, q), &w);
    note(&t);
    check(e.start_byte == a && e.old_end_byte == b && e.new_end_byte == a + w.len(), "byte offsets of the edit");
    let after = splice(&t, a, b, &w);
    let pt = |p: tree_sitter::Point| (p.row, p.column);
    check(pt(e.start_position) == point(&t, a), "start point");
    check(pt(e.old_end_position) == point(&t, b), "old end point");
    check(pt(e.new_end_position) == point(&after, a + w.len()), "new end point");
    cover("edit");
}
entry!(h_c02_edit, { edit(3, 2) });
entry!(h_c02_edit4, { edit(4, 2) });

entry!(h_c02_inverse, {
    let t = text("t", 4);
    let rope = Rope::from_str(&t);
    let at = upto("at", 20) as usize;
    assume(at <= t.len());
    let at = split(at as u64) as usize;
    assume(t.is_char_boundary(at));
    note(&t);
    let p = rope.to_position(at);
    check(p == position(&t, at), "position of an offset");
    check(rope.to_byte(p) == at, "offset of that position");
    let pt = rope.to_point(p);
    check((pt.row, pt.column) == point(&t, at), "point of that position");
    cover("inverse");
});

// Texts longer than one piece of the rope.
entry!(h_c02_long, {
    let t = format!("{}\n{}é\n{}", "a".repeat(700), "😀b".repeat(200), "é".repeat(600));
    let rope = Rope::from_str(&t);
    let line = choose("line", 4) as u32;
    let col = [0, 125, 598, 698][choose("near", 4)] + upto("col", 3);
    let p = Position::new(line, split(col as u64) as u32);
    let q = p;
    let a = resolve(&t, p);
    let e = rope.to_input_edit(Range::new(p, q), "x\ny");
    check(e.start_byte == a && e.old_end_byte == a && e.new_end_byte == a + 3, "byte offsets of the edit");
    check((e.start_position.row, e.start_position.column) == point(&t, a), "start point");
    cover("edit");
});
