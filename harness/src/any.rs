//! Every statement and every form of an expression that other harnesses look at.
use crate::doc::*;
use jinja_lsp_queries::search::IdentifierType as T;

/// One statement of any kind that can introduce a name or a scope, around `f` (or before it).
pub fn stmt(d: &mut Doc, k: usize, x: &str, y: &str, f: impl FnOnce(&mut Doc)) {
    match k {
        0 => {
            d.set(x);
            f(d);
        }
        1 => {
            d.set_block(x, f);
        }
        2 => {
            d.for_(x, None, y, f);
        }
        3 => {
            d.for_(x, Some(y), "q", f);
        }
        4 => {
            d.with(x, y, f);
        }
        5 => {
            d.macro_(x, y, f);
        }
        6 => {
            d.block(x, f);
        }
        7 => {
            d.if_(x, f);
        }
        8 => {
            d.if_else(x, f, |d| {
                d.use_(y);
            });
        }
        9 => {
            d.if_else(
                x,
                |d| {
                    d.set(y);
                },
                f,
            );
        }
        10 => {
            d.if_elif(x, f, y, |d| {
                d.use_(x);
            });
        }
        11 => {
            d.open().t("{% filter ").filter("upper").t(" %}");
            f(d);
            d.close().t("{% endfilter %}");
        }
        12 => {
            d.plain("{% autoescape true %}", "{% endautoescape %}", f);
        }
        13 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(",").def(y, T::ForLoopValue, 0).t(" in ").r("q").t(" %}").then(f).close().t("{% endfor %}");
        }
        14 => {
            d.t("{% for (").open().def(x, T::ForLoopKey, 0).t(", ").def(y, T::ForLoopValue, 0).t(") in ").r("q").field("items").t("() %}").then(f).close().t("{% endfor %}");
        }
        15 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(" in ").r("q").t(" if ").r(y).t(" %}").then(f).close().t("{% endfor %}");
        }
        16 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(", ").def(y, T::ForLoopValue, 0).t(", ").def("k", T::ForLoopValue, 0).t(" in ").r("q").t(" %}").then(f).close().t("{% endfor %}");
        }
        17 => {
            d.t("{% set ").def(x, T::SetVariable, 0).t(", ").def(y, T::SetVariable, 0).t(" = ").r("q").t(", 2 %}").then(f);
        }
        18 => {
            d.t("{% set ").def(x, T::SetVariable, 0).t(" = ").r("q").t(" if ").r(y).t(" else ").r("k").t(" %}").then(f);
        }
        19 => {
            d.t("{% with ").open().def(x, T::WithVariable, 0).t(" = ").r("q").t(", ").def(y, T::WithVariable, 0).t(" = 1 %}").then(f).close().t("{% endwith %}");
        }
        20 => {
            d.t("{% with %}").open().set(x).then(f).close().t("{% endwith %}");
        }
        21 => {
            d.t("{% macro ").open().def("k", T::MacroName, 1).t("(").def(x, T::MacroParameter, 0).t(", ").def(y, T::MacroParameter, 0).t("=").r("q").t(") %}").then(f).close().t("{% endmacro %}");
        }
        22 => {
            d.t("{% macro ").open().def(x, T::MacroName, 1).t("() %}").set(y).then(f).close().t("{% endmacro %}");
        }
        23 => {
            d.block(x, |d| {
                d.set(y).then(f);
            });
        }
        24 => {
            d.for_(x, None, "q", |d| {
                d.set_block(y, |d| {
                    d.t("a");
                })
                .then(f);
            });
        }
        25 => {
            d.for_(x, None, "q", |d| {
                d.t("{% include \"a\" ignore missing with context %}").then(f);
            });
        }
        26 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(" in ").r("q").t(" %}").then(f).close().t("{% else %}").open().use_(y).close().t("{% endfor %}");
        }
        27 => {
            d.t("{%- if ").open().r(x).t(" -%}").set(y).close().t("{%- elif ").open().r("q").t(" -%}").use_(y).close().t("{% else %}").open().use_(y).close().t("{%- endif -%}").then(f);
        }
        28 => {
            d.open().t("{% filter ").filter("h").t(" | ").filter("j").t(" %}").set(x).use_(y).close().t("{% endfilter %}").then(f);
        }
        29 => {
            d.t("{% with ").open().def(x, T::WithVariable, 0).t(" = ").r("q").t(", ").def(y, T::WithVariable, 0).t(" = 1,\n ");
            d.def("k", T::WithVariable, 0).t(" = \"y\" %}").then(f).close().t("{% endwith %}");
        }
        30 => {
            d.t("{% macro ").open().def("k", T::MacroName, 1).t("(").def(x, T::MacroParameter, 0).t(", ").def("j", T::MacroParameter, 0).t("='k', ");
            d.def(y, T::MacroParameter, 0).t("=1, ").def("l", T::MacroParameter, 0).t("=none) -%}").then(f).close().t("{%- endmacro %}");
        }
        31 => {
            d.t("{% set\n  ").def(x, T::SetVariable, 0).t("\n, ").def(y, T::SetVariable, 0).t(" , ").def("k", T::SetVariable, 0).t(" = 1, 2, 3\n%}").then(f);
        }
        32 => {
            d.t("{# {% set ").t("k = 1 %} {{ j }} #}").t("{% set ").def(x, T::SetVariable, 0).t(" = {'k': ").r(y).t("} %}").then(f);
        }
        33 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(" in ").r("q").t(" recursive %}").then(f).close().t("{% endfor %}");
        }
        34 => {
            d.t("{% block ").open().def(x, T::TemplateBlock, 0).t(" scoped required %}").then(f).close().t("{% endblock ").raw(x);
            d.t(" %}");
        }
        35 => {
            d.t("{% raw %}{{ h | j }}{% set k = 1 %}\n{% include 'j' %}{% for k in h %}{{ k is j }}{% endraw %}").set(x).then(f);
        }
        36 => {
            d.t("{% call(").open().def(x, T::MacroParameter, 0).t(") ").r("q").t("(").r(y).t(") %}").then(f).close().t("{% endcall %}");
        }
        37 => {
            d.t("{% call( ").open().def(x, T::MacroParameter, 0).t(" , ").def("k", T::MacroParameter, 0).t("='k', ").def(y, T::MacroParameter, 0).t(") ").r("q").field("k");
            d.t("(").r("h").t(", ").r("h").t(") -%}").set("k").then(f).close().t("{%- endcall -%}");
        }
        38 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(" in ").r("q").t(" if ").r(y).t("() and ").r("recursive").t(" %}").then(f).close().t("{% endfor %}");
            d.t("{% for ").open().def("k", T::ForLoopKey, 0).t(" in ").r("recursive").t(" %}").close().t("{% endfor %}");
            d.t("{% for ").open().def("k", T::ForLoopKey, 0).t(" in ").r("recursive").t("() recursive -%}").close().t("{% endfor %}");
        }
        39 => {
            d.block("scoped", |_| {}).t("{%- block ").open().def("required", T::TemplateBlock, 0).t(" required -%}").then(f);
            d.use_("scoped").close().t("{%- endblock required -%}").set(x).use_(y);
        }
        40 => {
            d.use_("raw").set(x).then(f).use_("endraw");
        }
        _ => {
            d.t("{% call ").open().r(x).t("(").r(y).t(") %}").then(f).close().t("{% endcall %}");
        }
    }
}
pub const KINDS: usize = 42;

/// Expression forms around names that may or may not be defined.
pub fn form(d: &mut Doc, k: usize, x: &str, y: &str) {
    match k {
        0 => d.r(x),
        1 => d.r(x).field("k"),
        2 => d.r(x).t(" | ").filter("h"),
        3 => d.r(x).t("|").filter("h").t("(").r(y).t(")"),
        4 => d.r(x).t(" is ").test("h"),
        5 => d.r(x).t(" is not ").test("h").t(" and ").r(y),
        6 => d.r(x).t("(").r(y).t(")"),
        7 => d.r(x).t("[").r(y).t("]"),
        8 => d.t("(").r(x).t(" ~ ").r(y).t(") | ").filter("h"),
        9 => d.t("\"s\" ~ ").r(x).t(" ~ 'x' ~ 1"),
        10 => d.r(x).field("k").field("j").t(" | ").filter("h").t(" | ").filter("x"),
        11 => {
            d.r("q").t("(").r(x).t(")");
            d.t(".j | ").filter("h")
        }
        12 => d.t("loop.index + ").r(x),
        13 => d.r(x).t(" ~ loop.index"),
        14 => d.r(x).t(" if ").r(y).t(" else ").r("q"),
        15 => d.t("not ").r(x).t(" or none == ").r(y),
        16 => d.t("[").r(x).t(", ").r(y).t("]"),
        17 => d.t("\"s\".k(").r(x).t(")"),
        18 => d.r(x).t("[0].k ~ ").r(y).field("h"),
        19 => d.r(x).t(" in ").r(y),
        20 => d.t("\n").r(x).t("\n  + ").r(y).t("\n"),
        21 => d.r(x).t(" + 1.5 * ").r(y),
        22 => d.r(x).t(" is ").test("none").t(" and ").r(y),
        _ => d.t("true and ").r(x).t(" | ").filter("h").t(" == super()"),
    };
}
pub const FORMS: usize = 24;
