//! Shorthands over the public API of the crates under test.
use jinja_lsp::channels::diagnostics::DiagnosticMessage;
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::objects::CompletionType;
use jinja_lsp_queries::search::Identifier;
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;
use tower_lsp::lsp_types::*;

pub const A: &str = "file:///tmp/vsr/t/a.jinja";
pub const B: &str = "file:///tmp/vsr/t/b.jinja";

pub fn url(u: &str) -> Url {
    Url::parse(u).unwrap()
}
pub type Diags = Vec<(JinjaDiagnostic, Identifier)>;

pub fn open(l: &mut LspFiles, uri: &str, text: &str) -> Option<Diags> {
    let p = DidOpenTextDocumentParams { text_document: TextDocumentItem::new(url(uri), String::new(), 0, text.to_string()) };
    take(l.did_open(p, false), uri)
}
pub fn take(m: Option<DiagnosticMessage>, uri: &str) -> Option<Diags> {
    match m? {
        DiagnosticMessage::Errors(mut e) => e.remove(uri),
        _ => None,
    }
}
pub fn tdp(uri: &str, line: u32, col: u32) -> TextDocumentPositionParams {
    TextDocumentPositionParams::new(TextDocumentIdentifier::new(url(uri)), Position::new(line, col))
}
pub fn wd() -> WorkDoneProgressParams {
    WorkDoneProgressParams { work_done_token: None }
}
pub fn hover(l: &LspFiles, uri: &str, line: u32, col: u32) -> Option<(Identifier, CompletionType)> {
    l.hover(HoverParams { text_document_position_params: tdp(uri, line, col), work_done_progress_params: wd() })
}
pub fn goto(l: &LspFiles, uri: &str, line: u32, col: u32) -> Option<GotoDefinitionResponse> {
    l.goto_definition(GotoDefinitionParams {
        text_document_position_params: tdp(uri, line, col),
        work_done_progress_params: wd(),
        partial_result_params: Default::default(),
    })
}
pub fn complete(l: &LspFiles, uri: &str, line: u32, col: u32) -> Option<(CompletionType, bool)> {
    l.completion(CompletionParams {
        text_document_position: tdp(uri, line, col),
        work_done_progress_params: wd(),
        partial_result_params: Default::default(),
        context: Some(CompletionContext { trigger_kind: CompletionTriggerKind::INVOKED, trigger_character: None }),
    })
}
pub fn save(l: &mut LspFiles, uri: &str) -> Option<Diags> {
    take(l.did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(uri)), text: None }), uri)
}
pub type Loc = (String, (u32, u32), (u32, u32));
pub fn locations(g: &Option<GotoDefinitionResponse>) -> Vec<Loc> {
    let f = |l: &Location| (l.uri.to_string(), (l.range.start.line, l.range.start.character), (l.range.end.line, l.range.end.character));
    match g {
        None => vec![],
        Some(GotoDefinitionResponse::Scalar(l)) => vec![f(l)],
        Some(GotoDefinitionResponse::Array(a)) => a.iter().map(f).collect(),
        Some(GotoDefinitionResponse::Link(_)) => vec![(String::from("link"), (0, 0), (0, 0))],
    }
}
#[allow(deprecated)]
pub fn symbols(l: &LspFiles, uri: &str) -> Option<Vec<DocumentSymbol>> {
    match l.document_symbols(DocumentSymbolParams {
        text_document: TextDocumentIdentifier::new(url(uri)),
        work_done_progress_params: wd(),
        partial_result_params: Default::default(),
    })? {
        DocumentSymbolResponse::Nested(v) => Some(v),
        DocumentSymbolResponse::Flat(_) => None,
    }
}
