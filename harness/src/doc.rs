//! Reference model of a template: text is emitted together with what it means, so that expectations follow
//! from how the text was built and never from reading it back.
use jinja_lsp_queries::search::IdentifierType;

pub type P = (u32, u32);

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub kind: IdentifierType,
    pub start: P,
    pub end: P,
    /// `None`: visible to the end of the document
    pub scope_end: Option<P>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Var,
    Filter,
    Test,
    Block,
}
#[derive(Clone, Debug)]
pub struct Ref {
    pub name: String,
    pub start: P,
    pub end: P,
    /// end of the last field
    pub chain: P,
    pub fields: Vec<String>,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub struct Tpl {
    pub name: String,
    pub start: P,
    pub end: P,
}
#[derive(Default)]
pub struct Doc {
    pub s: String,
    pub line: u32,
    pub col: u32,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    pub tpls: Vec<Tpl>,
    scopes: Vec<Vec<usize>>,
}

impl Doc {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn pos(&self) -> P {
        (self.line, self.col)
    }
    /// Literal text.
    pub fn t(&mut self, s: &str) -> &mut Self {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += c.len_utf8() as u32;
            }
        }
        self.s.push_str(s);
        self
    }
    /// A name without line breaks, possibly of symbolic bytes.
    pub fn raw(&mut self, n: &str) -> (P, P) {
        let a = self.pos();
        self.s.push_str(n);
        self.col += n.len() as u32;
        (a, self.pos())
    }
    fn push(&mut self, n: &str, kind: Kind) {
        let (start, end) = self.raw(n);
        self.refs.push(Ref { name: n.to_string(), start, end, chain: end, fields: vec![], kind });
    }
    pub fn r(&mut self, n: &str) -> &mut Self {
        self.push(n, Kind::Var);
        self
    }
    pub fn filter(&mut self, n: &str) -> &mut Self {
        self.push(n, Kind::Filter);
        self
    }
    pub fn test(&mut self, n: &str) -> &mut Self {
        self.push(n, Kind::Test);
        self
    }
    /// A field of the last reference.
    pub fn field(&mut self, n: &str) -> &mut Self {
        self.t(".");
        let (_, end) = self.raw(n);
        let l = self.refs.last_mut().unwrap();
        l.chain = end;
        l.fields.push(n.to_string());
        self
    }
    /// The name of a definition, in the innermost open scope (`up` = 1: the scope around it).
    pub fn def(&mut self, n: &str, kind: IdentifierType, up: usize) -> &mut Self {
        let k = if kind == IdentifierType::TemplateBlock { Kind::Block } else { Kind::Var };
        self.push(n, k);
        let r = self.refs.last().unwrap();
        self.defs.push(Def { name: n.to_string(), kind, start: r.start, end: r.end, scope_end: None });
        let l = self.scopes.len();
        if l > up {
            self.scopes[l - 1 - up].push(self.defs.len() - 1);
        }
        self
    }
    pub fn open(&mut self) -> &mut Self {
        self.scopes.push(vec![]);
        self
    }
    /// The innermost scope ends here (before the closing statement).
    pub fn close(&mut self) -> &mut Self {
        let p = self.pos();
        for i in self.scopes.pop().unwrap() {
            self.defs[i].scope_end = Some(p);
        }
        self
    }
    /// A template name in quotes.
    pub fn tpl(&mut self, q: &str, n: &str) -> &mut Self {
        let start = self.pos();
        self.raw(q);
        self.raw(n);
        self.raw(q);
        let end = self.pos();
        self.tpls.push(Tpl { name: n.to_string(), start, end });
        self
    }
    /// Definitions of this document that a use at `at` (its name ending at `end`) sees.
    pub fn sees(&self, d: &Def, name: &str, at: P, end: P) -> bool {
        d.kind != IdentifierType::TemplateBlock
            && d.start <= end
            && d.scope_end.map_or(true, |e| at < e)
            && d.name == name
    }
    pub fn visible(&self, r: &Ref) -> bool {
        self.defs.iter().any(|d| self.sees(d, &r.name, r.start, r.end))
    }
    pub fn defines(&self, name: &str) -> bool {
        self.defs.iter().any(|d| d.kind != IdentifierType::TemplateBlock && d.name == name)
    }

    pub fn then(&mut self, f: impl FnOnce(&mut Doc)) -> &mut Self {
        f(self);
        self
    }

    // statements
    pub fn expr(&mut self, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{{ ");
        f(self);
        self.t(" }}")
    }
    pub fn use_(&mut self, n: &str) -> &mut Self {
        self.expr(|d| {
            d.r(n);
        })
    }
    pub fn set(&mut self, n: &str) -> &mut Self {
        self.t("{% set ").def(n, IdentifierType::SetVariable, 0).t(" = 1 %}")
    }
    pub fn set_block(&mut self, n: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% set ").def(n, IdentifierType::SetVariable, 0).t(" %}");
        f(self);
        self.t("{% endset %}")
    }
    pub fn for_(&mut self, k: &str, v: Option<&str>, it: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% for ").open().def(k, IdentifierType::ForLoopKey, 0);
        if let Some(v) = v {
            self.t(", ").def(v, IdentifierType::ForLoopValue, 0);
        }
        self.t(" in ").r(it).t(" %}");
        f(self);
        self.close().t("{% endfor %}")
    }
    pub fn with(&mut self, k: &str, v: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% with ").open().def(k, IdentifierType::WithVariable, 0).t(" = ").r(v).t(" %}");
        f(self);
        self.close().t("{% endwith %}")
    }
    pub fn macro_(&mut self, n: &str, a: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% macro ").open().def(n, IdentifierType::MacroName, 1).t("(").def(a, IdentifierType::MacroParameter, 0).t(") %}");
        f(self);
        self.close().t("{% endmacro %}")
    }
    pub fn block(&mut self, n: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% block ").open().def(n, IdentifierType::TemplateBlock, 0).t(" %}");
        f(self);
        self.close().t("{% endblock %}")
    }
    /// `if` with any number of further branches.
    pub fn if_(&mut self, c: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% if ").open().r(c).t(" %}");
        f(self);
        self.close().t("{% endif %}")
    }
    pub fn if_else(&mut self, c: &str, f: impl FnOnce(&mut Doc), g: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% if ").open().r(c).t(" %}");
        f(self);
        self.close().t("{% else %}").open();
        g(self);
        self.close().t("{% endif %}")
    }
    pub fn if_elif(&mut self, c: &str, f: impl FnOnce(&mut Doc), c2: &str, g: impl FnOnce(&mut Doc)) -> &mut Self {
        self.t("{% if ").open().r(c).t(" %}");
        f(self);
        self.close().t("{% elif ").open().r(c2).t(" %}");
        g(self);
        self.close().t("{% endif %}")
    }
    /// `filter upper` / `autoescape true`: a scope without names.
    pub fn plain(&mut self, open: &str, end: &str, f: impl FnOnce(&mut Doc)) -> &mut Self {
        self.open().t(open);
        f(self);
        self.close().t(end)
    }
}
