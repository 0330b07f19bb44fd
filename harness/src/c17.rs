//! Snippets: where they are offered, and what becomes of the document when one is accepted.
use crate::{c05, c08::T, c14::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::{search::objects::CompletionType, tree_builder::JinjaDiagnostic};
use serde_json::json;
use tower_lsp::{lsp_types::*, LanguageServer};

// In a document without unfinished parts there are none.
entry!(h_c17_finished, {
    let mut l = LspFiles::default();
    let k = choose("shape", c05::SHAPES + 4);
    let text = match k.checked_sub(c05::SHAPES) {
        None => c05::shape(k, "g", "h", "k").s,
        Some(0) => "{%- macro g(h, k=1) -%}\n{{ h }}\n{%- endmacro -%}\n{% block l %}{{ g(1) }}{% endblock l %}".into(),
        Some(1) => "{# {% #}\nab { c } % }\n'{' \"%\" {{ \"{%\" ~ g }}".into(),
        Some(2) => "{% filter upper %}é{% endfilter %}\n{% if g is defined and not h %}\n{% elif k %}\n{% else %}\n{% endif %}".into(),
        Some(_) => "{% with g = 1, h = g %}{% include 'k' ignore missing %}{% endwith %}\n{% extends \"k\" %}".into(),
    };
    open(&mut l, A, &text);
    note(&text);
    let p = (word("line"), word("col"));
    let c = complete(&l, A, p.0, p.1);
    check(!matches!(c, Some((CompletionType::Snippets { .. }, _))), "snippets are offered only for an unfinished statement");
    cover("finished");
});

const LABELS: [&str; 11] = ["for1", "for2", "with", "set1", "set2", "include", "from", "import", "extends", "if1", "if2"];
/// What it defines.
const DEFINES: [&[&str]; 11] = [&["i"], &["key", "value"], &["v"], &["key"], &["data"], &[], &[], &[], &[], &[], &[]];
/// The words of its statements, in order.
const WORDS: [&[&str]; 11] = [
    &["for", "in", "endfor"],
    &["for", "in", "endfor"],
    &["with", "endwith"],
    &["set", "="],
    &["set", "endset"],
    &["include", "\"v\""],
    &["from", "\"v\"", "import"],
    &["import", "\"v\"", "as"],
    &["extends", "\"v\""],
    &["if", "endif"],
    &["if", "elif", "endif"],
];

/// A snippet with its placeholders filled in.
fn filled(s: &str, label: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('$') {
        out.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix('{') {
            let e = r.find('}').unwrap();
            let inner = &r[..e];
            out.push_str(inner.split_once(':').map_or("", |x| x.1));
            rest = &r[e + 1..];
        } else {
            let n = rest.bytes().take_while(u8::is_ascii_digit).count();
            rest = &rest[n..];
            out.push_str(if label == "with" { "v = 1" } else { "v" });
        }
    }
    out.push_str(rest);
    out
}

// Right after the opening of a statement, at the end of a document or of a line in it.
entry!(h_c17_unfinished, {
    let vscode = choose("vscode", 2) == 1;
    let mut m = LspFiles::default();
    dir(T);
    run(async {
        let name = if vscode { "Visual Studio Code" } else { "x" };
        let s = Session::start(json!({"capabilities": {}, "clientInfo": {"name": name}, "initializationOptions": options("rust")})).await;
        pause(1000).await;
        let before = match choose("before", 3) {
            0 => String::new(),
            1 => "ab\n{{ g.h | upper }}\n".into(),
            _ => format!("{}\n", c05::shape(choose("shape", c05::SHAPES), "g", "h", "k").s),
        };
        let (opened, closed) = [("{%", ""), ("{% ", ""), ("{%", "}"), ("{% ", "}"), ("{%-", ""), ("{%- ", "")][choose("form", 6)];
        let text = format!("{before}{opened}{closed}");
        s.server().did_open(opening(A, &text)).await;
        note(&text);
        let row = before.matches('\n').count() as u32;
        let col = word("col");
        assume(col >= 2 && col <= opened.len() as u32);
        let col = split(col as u64) as u32;
        let items = |line: u32, character: u32| {
            s.server().completion(CompletionParams {
                text_document_position: tdp(A, line, character),
                work_done_progress_params: wd(),
                partial_result_params: Default::default(),
                context: Some(CompletionContext { trigger_kind: CompletionTriggerKind::TRIGGER_CHARACTER, trigger_character: Some("%".into()) }),
            })
        };
        let Some(CompletionResponse::Array(all)) = answer(items(row, col)).await else {
            return check(false, "snippets are offered in an unfinished statement");
        };
        check(all.iter().map(|i| &i.label[..]).collect::<Vec<_>>() == LABELS, "every snippet is offered once");
        check(all.iter().all(|i| i.kind == Some(CompletionItemKind::SNIPPET) && i.detail.is_some()), "snippets are marked as such");
        cover("offered");
        let k = choose("accept", LABELS.len());
        let e = match &all[k].text_edit {
            Some(CompletionTextEdit::InsertAndReplace(e)) => {
                check(!vscode, "a client with snippets of its own gets no text");
                e
            }
            _ => return check(vscode, "accepting a snippet inserts its text"),
        };
        if col < opened.len() as u32 {
            return;
        }
        check(e.insert == e.replace && e.insert.start == Position::new(row, col), "a snippet goes where the cursor is");
        check(e.insert.end.line == row && e.insert.end.character >= col, "a snippet goes where the cursor is");
        let end = (before.len() + e.insert.end.character as usize).min(text.len());
        let rest = &text[end..];
        let text = filled(&e.new_text, LABELS[k]);
        let done = format!("{before}{opened}{text}{rest}\n{{% set zz = 1 %}}");
        let mut words = text.split_whitespace();
        check(WORDS[k].iter().all(|w| words.any(|x| x == *w)), "a snippet is what its name says");
        let d = open(&mut m, A, &done).unwrap_or_default();
        note(&done);
        let named = matches!(LABELS[k], "include" | "from" | "import" | "extends");
        check(d.iter().filter(|d| d.0 == JinjaDiagnostic::TemplateNotFound && d.1.name == "v").count() == named as usize, "an accepted snippet names a template");
        let all = symbols(&m, A).unwrap_or_default();
        for d in DEFINES[k] {
            check(all.iter().any(|s| s.name == *d && s.range.start.line >= row), "an accepted snippet defines its variables");
        }
        // nothing is known of a document with an unfinished part
        check(all.iter().any(|s| s.name == "zz"), "an accepted snippet is a finished statement");
        cover("accepted");
    });
});
