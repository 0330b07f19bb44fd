//! Filters and tests: what is offered, and what hover says about them.
use crate::{c08::T, c14::*, entry, rt::*, util::*};
use tower_lsp::{lsp_types::*, LanguageServer};

const FILTERS: [&str; 38] = [
    "abs", "attr", "batch", "bool", "capitalize", "default", "dictsort", "escape", "first", "float", "indent", "int", "items", "join",
    "last", "length", "list", "lower", "map", "max", "min", "pprint", "rejectattr", "reject", "replace", "reverse", "round", "safe",
    "selectattr", "select", "slice", "sort", "title", "tojson", "trim", "unique", "upper", "urlencode",
];
const TESTS: [(&str, &str); 31] = [
    ("boolean", "Return true if the object is a boolean value."),
    ("defined", "Checks if a value is defined."),
    ("divisibleby", "Return true if the value is divisible by another one."),
    ("endingwith", "Checks if the value is ending with a string."),
    ("eq", "Test version of `==`."),
    ("even", "Checks if a value is even."),
    ("false", "Checks if a value is false."),
    ("filter", "Checks if a filter with a given name is available."),
    ("float", "Checks if this value is a float"),
    ("ge", "Test version of `>=`."),
    ("gt", "Test version of `>`."),
    ("in", "Test version of in."),
    ("integer", "Checks if this value is an integer."),
    ("iterable", "Checks if this value can be iterated over."),
    ("le", "Test version of `<=`."),
    ("lower", "Checks if a string is all lowercase."),
    ("lt", "Test version of `<`."),
    ("mapping", "Checks if this value is a mapping"),
    ("ne", "Test version of `!=`."),
    ("none", "Checks if a value is none."),
    ("number", "Checks if this value is a number."),
    ("odd", "Checks if a value is odd."),
    ("safe", "Checks if a value is safe."),
    ("sameas", "Checks if two values are identical."),
    ("sequence", "Checks if this value is a sequence"),
    ("startingwith", "Checks if the value is starting with a string."),
    ("string", "Checks if this value is a string."),
    ("test", "Checks if a test with a given name is available."),
    ("true", "Checks if a value is true."),
    ("undefined", "Checks if a value is undefined."),
    ("upper", "Checks if a string is all uppercase."),
];

fn doc(h: Option<Hover>) -> Option<String> {
    Some(match h?.contents {
        HoverContents::Markup(m) => m.value,
        _ => String::new(),
    })
}
fn docs(i: &CompletionItem) -> String {
    match &i.documentation {
        Some(Documentation::MarkupContent(m)) => m.value.clone(),
        _ => String::new(),
    }
}
async fn hovered(s: &Session, p: (u32, u32)) -> Option<String> {
    doc(answer(s.server().hover(HoverParams { text_document_position_params: tdp(A, p.0, p.1), work_done_progress_params: wd() })).await)
}
async fn offered(s: &Session, p: (u32, u32)) -> Vec<CompletionItem> {
    let c = s.server().completion(CompletionParams {
        text_document_position: tdp(A, p.0, p.1),
        work_done_progress_params: wd(),
        partial_result_params: Default::default(),
        context: Some(CompletionContext { trigger_kind: CompletionTriggerKind::INVOKED, trigger_character: None }),
    });
    match answer(c).await {
        Some(CompletionResponse::Array(v)) => v,
        _ => vec![],
    }
}

/// A name that differs from a known one in at most one, arbitrary, letter; none that the language reserves.
fn near(known: &str) -> String {
    let b = bytes("b", 1, |b| b.is_ascii_lowercase())[0];
    let mut n = known.as_bytes().to_vec();
    let last = n.len() - 1;
    n[last] = b;
    let n = String::from_utf8(n).unwrap();
    for k in ["in", "is", "if", "or", "as", "and", "not", "for", "set", "end", "lower" /* f-lower */] {
        assume(n.len() != k.len() || n != k || known == k);
    }
    n
}

// The name of a filter, known or almost, under the cursor.
entry!(h_c19_filter, {
    dir(T);
    run(async {
        let s = session().await;
        let k = choose("filter", FILTERS.len());
        let n = near(FILTERS[k]);
        let (pre, post) = [("{{ g | ", " }}"), ("{{ g|", "(h) | k }}"), ("{% if g | ", " %}{% endif %}"), ("{% filter ", " %}g{% endfilter %}")][choose("form", 4)];
        let text = format!("ab\n{pre}{n}{post}");
        s.server().did_open(opening(A, &text)).await;
        note(&text);
        let at = word("col");
        let from = pre.len() as u32;
        assume(at >= from && at <= from + n.len() as u32);
        let h = hovered(&s, (1, at)).await;
        match FILTERS.iter().find(|f| **f == n) {
            None => {
                check(h.is_none(), "an unknown filter has no description");
                cover("unknown");
            }
            Some(f) => {
                check(h.is_some_and(|h| h.trim_start().starts_with(&format!("**{f}**"))), "hovering a filter describes it");
                cover("known");
            }
        }
    });
});
// The name of a test, known or almost, under the cursor.
entry!(h_c19_test, {
    dir(T);
    run(async {
        let s = session().await;
        let k = choose("test", TESTS.len());
        assume(TESTS[k].0 != "in");
        let n = near(TESTS[k].0);
        assume(n != "in");
        let form = choose("form", 3);
        // the grammar takes `filter` in a statement for the keyword
        assume(form < 2 || n != "filter");
        let (pre, post) = [("{{ g is ", " }}"), ("{{ g is not ", " }}"), ("{% if g is ", " and h %}{% endif %}")][form];
        let text = format!("ab\n{pre}{n}{post}");
        s.server().did_open(opening(A, &text)).await;
        note(&text);
        let at = word("col");
        let from = pre.len() as u32;
        assume(at >= from && at <= from + n.len() as u32);
        let h = hovered(&s, (1, at)).await;
        match TESTS.iter().find(|f| f.0 == n) {
            None => {
                check(h.is_none(), "an unknown test has no description");
                cover("unknown");
            }
            Some(f) => {
                check(h.is_some_and(|h| h.trim_start().starts_with(f.1)), "hovering a test describes it");
                cover("known");
            }
        }
    });
});
// What is offered after a pipe and after `is`.
entry!(h_c19_offered, {
    dir(T);
    run(async {
        let s = session().await;
        let n = crate::c03::letter("n");
        let pre = ["{{ ", "{{ k | upper ~ ", "{% if k %}{% endif %}\n{{ "][choose("pre", 3)];
        let op = [" | ", "|", ".h() | ", " is ", ".h is ", " is  ", " is not "][choose("op", 7)];
        let test = op.contains("is");
        let text = format!("{pre}{n}{op}");
        let post = [" }}", " }}{{ h }}"][choose("post", 2)];
        let full = format!("{text}{post}");
        s.server().did_open(opening(A, &full)).await;
        note(&full);
        let line = text.matches('\n').count() as u32;
        let col = text.len() - text.rfind('\n').map_or(0, |i| i + 1);
        judge(&offered(&s, (line, col as u32)).await, test);
    });
});
fn judge(all: &[CompletionItem], test: bool) {
    let mut got: Vec<String> = all.iter().map(|i| i.label.clone()).collect();
    got.sort();
    let mut want: Vec<&str> = if test { TESTS.iter().map(|t| t.0).collect() } else { FILTERS.to_vec() };
    want.sort();
    check(got == want, if test { "every test is offered after `is`" } else { "every filter is offered after a pipe" });
    for i in all {
        let d = match TESTS.iter().find(|t| t.0 == i.label) {
            Some(t) if test => t.1.to_string(),
            _ => format!("**{}**", i.label),
        };
        check(docs(i).trim_start().starts_with(&d), "what is offered is described");
    }
    cover("offered");
}
// Where filters and where tests are offered, in a line with both.
entry!(h_c19_where, {
    dir(T);
    run(async {
        let s = session().await;
        let x = crate::c03::letter("x");
        let y = crate::c03::letter("y");
        let (text, at, test) = match choose("text", 6) {
            0 => (format!("{{{{ {x} | {y} }}}}{{{{ {x} }}}}"), Some((6, 6)), false),
            1 => (format!("{{{{ {x} is {y} }}}}{{{{ {x} }}}}"), Some((7, 7)), true),
            2 => (format!("{{{{ {x}  is  }}}}{{{{ {y} }}}}"), Some((8, 10)), true),
            3 => (format!("{{{{ {x}.h and {y} }}}}\n|is"), None, false),
            4 => (format!("{{% if {x} | {y} %}}{{% endif %}} is | {{{{ {y} }}}}"), Some((9, 9)), false),
            _ => (format!("{{{{ {x}|{y} }}}}"), Some((5, 5)), false),
        };
        s.server().did_open(opening(A, &text)).await;
        note(&text);
        let p = (word("line"), word("col"));
        assume(p.0 < 3);
        let all = offered(&s, p).await;
        let special = all.iter().any(|i| i.label == "upper");
        let inside = at.is_some_and(|(a, b)| p.0 == 0 && p.1 >= a && p.1 <= b);
        // at the edges of the operator either is fine
        let near = at.is_some_and(|(a, b)| p.0 == 0 && p.1 + 1 >= a && p.1 <= b + 1);
        if inside {
            judge(&all, test);
        } else if !near {
            check(!special, "filters and tests are offered only where one is expected");
            cover("elsewhere");
        }
    });
});
