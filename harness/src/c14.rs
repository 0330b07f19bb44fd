//! The server as a whole, as a client talks to it.
use crate::{c03::letter, c08::T, entry, rt::*, util::*};
use futures::StreamExt;
use jinja_lsp::hooks::Backend;
use jinja_lsp::lsp_files::{JinjaCodeAction, LspFiles};
use jinja_lsp_queries::{search::objects::CompletionType, tree_builder::JinjaDiagnostic};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tower_lsp::{jsonrpc::Request, lsp_types::*, LanguageServer, LspService};
use tower_service::Service;

pub struct Session {
    service: LspService<Backend>,
    log: Arc<Mutex<Vec<(String, Value)>>>,
}

/// Runs `f` on one thread, with a clock that jumps to the next timer when there is nothing to do.
pub fn run<F: Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(f);
}
pub async fn pause(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}

impl Session {
    pub async fn start(params: Value) -> Session {
        let (mut service, socket) = LspService::new(Backend::_new);
        let log = Arc::new(Mutex::new(vec![]));
        let to = log.clone();
        tokio::spawn(async move {
            let (mut rx, _tx) = socket.split();
            while let Some(r) = rx.next().await {
                to.lock().unwrap().push((r.method().to_string(), r.params().cloned().unwrap_or_default()));
            }
        });
        let r = service.call(Request::build("initialize").id(1).params(params).finish()).await;
        check(matches!(r, Ok(Some(_))), "the server answers initialize");
        let _ = service.call(Request::build("initialized").params(json!({})).finish()).await;
        Session { service, log }
    }
    pub fn server(&self) -> &Backend {
        self.service.inner()
    }
    /// Messages to the user.
    pub fn said(&self) -> Vec<String> {
        let log = self.log.lock().unwrap();
        let all = log.iter().filter(|m| m.0 == "window/logMessage");
        all.filter_map(|m| m.1["message"].as_str().map(String::from)).collect()
    }
    /// The diagnostics last published for a document.
    pub fn published(&self, uri: &str) -> Option<Vec<Diagnostic>> {
        let log = self.log.lock().unwrap();
        let last = log.iter().rev().find(|m| m.0 == "textDocument/publishDiagnostics" && m.1["uri"] == uri)?;
        serde_json::from_value(last.1["diagnostics"].clone()).ok()
    }
}

pub fn opening(uri: &str, text: &str) -> DidOpenTextDocumentParams {
    DidOpenTextDocumentParams { text_document: TextDocumentItem::new(url(uri), String::new(), 0, text.to_string()) }
}


/// Waits for an answer, but not forever.
pub async fn answer<R>(f: impl Future<Output = tower_lsp::jsonrpc::Result<Option<R>>>) -> Option<R> {
    match tokio::time::timeout(Duration::from_secs(5), f).await {
        Ok(Ok(r)) => r,
        _ => {
            check(false, "every request is answered");
            None
        }
    }
}
pub fn options(lang: &str) -> Value {
    json!({"templates": T, "backend": [], "lang": lang})
}
pub async fn session() -> Session {
    let s = Session::start(json!({"capabilities": {}, "initializationOptions": options("rust")})).await;
    pause(1000).await;
    s
}
const G: &str = "g.html";
fn on_disk() -> String {
    format!("file://{T}/{G}")
}
/// What the client sees of a document: where diagnostics are; whether a name is defined elsewhere may be outdated.
fn shown(d: &[Diagnostic]) -> Vec<String> {
    let mut v: Vec<String> = d
        .iter()
        .map(|d| {
            let kind = match d.message.as_str() {
                "Template not found" => "missing",
                "Undefined variable" => "name",
                _ => "name",
            };
            check(d.severity.is_some(), "diagnostics have a severity");
            format!("{kind} {:?}", d.range)
        })
        .collect();
    v.sort();
    v
}
fn due(d: &Diags) -> Vec<String> {
    let d: Vec<Diagnostic> = d.iter().map(|(k, i)| jinja_lsp_queries::lsp_helper::create_diagnostic(i, k.severity(), k.to_string())).collect();
    shown(&d)
}
fn edit(uri: &str, range: Option<Range>, text: &str) -> DidChangeTextDocumentParams {
    DidChangeTextDocumentParams {
        text_document: VersionedTextDocumentIdentifier::new(url(uri), 1),
        content_changes: vec![TextDocumentContentChangeEvent { range, range_length: None, text: text.into() }],
    }
}

/// The server and, for every document, the text it should have.
struct Told {
    s: Session,
    texts: Vec<(String, String)>,
}
impl Told {
    fn set(&mut self, uri: &str, text: String) {
        self.texts.retain(|t| t.0 != uri);
        self.texts.push((uri.into(), text));
    }
    fn text(&self, uri: &str) -> String {
        self.texts.iter().find(|t| t.0 == uri).map(|t| t.1.clone()).unwrap_or_default()
    }
    async fn open(&mut self, uri: &str, text: &str) {
        self.s.server().did_open(opening(uri, text)).await;
        self.set(uri, text.into());
    }
    async fn insert(&mut self, uri: &str, with: &str) {
        let at = Position::new(0, 0);
        self.s.server().did_change(edit(uri, Some(Range::new(at, at)), with)).await;
        let t = format!("{with}{}", self.text(uri));
        self.set(uri, t);
    }
    async fn replace(&mut self, uri: &str, text: &str) {
        self.s.server().did_change(edit(uri, None, text)).await;
        self.set(uri, text.into());
    }
    async fn save(&self, uri: &str) {
        self.s.server().did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(uri)), text: None }).await;
    }
    async fn configure(&self, settings: Value) {
        self.s.server().did_change_configuration(DidChangeConfigurationParams { settings }).await;
    }
    async fn reset(&self) {
        let params = ExecuteCommandParams { command: "reset_variables".into(), arguments: vec![], work_done_progress_params: wd() };
        let _ = self.s.server().execute_command(params).await;
    }
    /// Every kind of request at a position, compared with a library that was handed the texts.
    async fn ask(&self, m: &mut LspFiles, uri: &str, p: (u32, u32)) {
        let s = self.s.server();
        let g = answer(s.goto_definition(GotoDefinitionParams {
            text_document_position_params: tdp(uri, p.0, p.1),
            work_done_progress_params: wd(),
            partial_result_params: Default::default(),
        }))
        .await;
        let sort = |mut v: Vec<Loc>| {
            v.sort();
            v
        };
        check(sort(locations(&g)) == sort(locations(&goto(m, uri, p.0, p.1))), "go to definition answers from the current text");
        let y = answer(s.document_symbol(DocumentSymbolParams {
            text_document: TextDocumentIdentifier::new(url(uri)),
            work_done_progress_params: wd(),
            partial_result_params: Default::default(),
        }))
        .await;
        let y = match y {
            Some(DocumentSymbolResponse::Nested(v)) => v,
            _ => vec![],
        };
        let list = |v: Vec<DocumentSymbol>| {
            let mut v: Vec<String> = v.iter().map(|s| format!("{} {:?} {:?}", s.name, s.kind, s.range)).collect();
            v.sort();
            v
        };
        check(list(y) == list(symbols(m, uri).unwrap_or_default()), "symbols are those of the current text");
        let h = answer(s.hover(HoverParams { text_document_position_params: tdp(uri, p.0, p.1), work_done_progress_params: wd() })).await;
        let i = hover(m, uri, p.0, p.1);
        if let Some((i, CompletionType::Identifier)) = i {
            let t = m.data_type(url(uri), i).map(|t| t.completion_detail().to_string());
            let h = h.map(|h| match h.contents {
                HoverContents::Markup(c) => c.value,
                _ => String::new(),
            });
            check(h == t, "hover answers from the current text");
        } else if i.is_none() {
            check(h.is_none(), "hover answers from the current text");
        }
        let c = answer(s.completion(CompletionParams {
            text_document_position: tdp(uri, p.0, p.1),
            work_done_progress_params: wd(),
            partial_result_params: Default::default(),
            context: Some(CompletionContext { trigger_kind: CompletionTriggerKind::INVOKED, trigger_character: None }),
        }))
        .await;
        let at = Position::new(p.0, p.1);
        let want = match complete(m, uri, p.0, p.1) {
            Some((CompletionType::Identifier, _)) => m.read_variables(&url(uri), at, None, None),
            Some((CompletionType::IncompleteIdentifier { name, range }, _)) => m.read_variables(&url(uri), at, Some((name, range)), None),
            Some((CompletionType::IncludedTemplate { name, range }, _)) => m.read_templates(name, range, at, None),
            None => None,
            _ => return cover("other completion"),
        };
        let c = match c {
            Some(CompletionResponse::Array(v)) => v,
            _ => vec![],
        };
        let list = |v: Vec<CompletionItem>| {
            let mut v: Vec<String> = v.iter().map(|s| format!("{} {:?} {:?}", s.label, s.kind, s.text_edit)).collect();
            v.sort();
            v
        };
        check(list(c) == list(want.unwrap_or_default()), "completion answers from the current text");
    }
    /// The actions offered once diagnostics have been published.
    async fn ask_actions(&self, m: &mut LspFiles, uri: &str, p: (u32, u32)) {
        let at = Position::new(p.0, p.1);
        let s = self.s.server();
        let a = answer(s.code_action(CodeActionParams {
            text_document: TextDocumentIdentifier::new(url(uri)),
            range: Range::new(at, at),
            context: Default::default(),
            work_done_progress_params: wd(),
            partial_result_params: Default::default(),
        }))
        .await;
        let a = a.unwrap_or_default();
        let kind = match crate::c08::actions(m, uri, p) {
            None => "",
            Some(JinjaCodeAction::Reset) => "Reset variables",
            Some(JinjaCodeAction::CreateTemplate(_)) => "Generate new template",
        };
        let first = match a.first() {
            Some(CodeActionOrCommand::CodeAction(c)) => &c.title,
            _ => "",
        };
        check(first == kind, "code actions are those of the current text");
    }
    /// Gives `m` the texts.
    fn tell(&self, m: &mut LspFiles) -> Vec<(String, Diags)> {
        m.config.templates = T.into();
        let mut all = vec![];
        for (uri, text) in &self.texts {
            open(m, uri, text);
        }
        for (uri, _) in &self.texts {
            let d = save(m, uri).unwrap_or_default();
            let missing = d.iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1.clone()).collect();
            m.add_code_actions(HashMap::from([(uri.to_string(), missing)]));
            all.push((uri.clone(), d));
        }
        all
    }
    /// When all is quiet the client sees the diagnostics of the current texts.
    async fn settled(&self, m: &mut LspFiles) {
        pause(3000).await;
        for (uri, d) in self.tell(m) {
            let p = self.s.published(&uri);
            check(p.is_some(), "every open document gets diagnostics");
            check(shown(&p.unwrap_or_default()) == due(&d), "the diagnostics shown are those of the current text");
        }
        cover("settled");
    }
}

// Any few notifications about two documents, at once or with pauses between them.
entry!(h_c14_fresh, {
    let mut m = LspFiles::default();
    file(&format!("{T}/{G}"), "{{ x }}");
    run(async {
        let s = session().await;
        let mut t = Told { s, texts: vec![] };
        let y = letter("y");
        let first = format!("{{% set g = 1 %}}{{{{ {y} }}}}{{% include 'k' %}}");
        t.open(A, &first).await;
        t.open(B, "{{ h }}").await;
        for i in 0..3 {
            match choose(&format!("op{i}"), 10) {
                0 => t.insert(A, "{{ u }}\n").await,
                1 => t.insert(B, "{{ v }}{% include 'z' %}\n").await,
                2 => t.insert(A, "{% ").await,
                3 => t.replace(A, "{{ w.x }}\n{{ y }}").await,
                4 => t.open(A, "ab\n{{ u }}").await,
                5 => t.open(A, "{% if").await,
                6 => t.save(A).await,
                7 => pause(100).await,
                8 => pause(200).await,
                _ => pause(250).await,
            }
        }
        t.settled(&mut m).await;
        open(&mut m, &on_disk(), "{{ x }}");
        let p = (0, word("col"));
        t.ask(&mut m, A, p).await;
        t.ask_actions(&mut m, A, p).await;
    });
});

// The configuration changes, or the client asks to read everything again.
entry!(h_c14_config, {
    let mut m = LspFiles::default();
    file(&format!("{T}/{G}"), "{{ x }}{% set x = 1 %}");
    run(async {
        let s = session().await;
        let mut t = Told { s, texts: vec![] };
        let first = "{% set g = 1 %}{{ y }}{% include 'k' %}";
        let uri = [A.to_string(), on_disk()][choose("uri", 2)].clone();
        t.open(&uri, first).await;
        match choose("before", 3) {
            0 => {}
            1 => t.insert(&uri, "{{ u }}\n").await,
            _ => {
                t.insert(&uri, "{{ u }}\n").await;
                pause(100).await;
            }
        }
        match choose("what", 4) {
            0 => t.configure(options("rust")).await,
            1 => t.configure(options("python")).await,
            2 => t.configure(json!({"x": 1})).await,
            _ => t.reset().await,
        }
        match choose("after", 3) {
            0 => {}
            1 => t.insert(&uri, "{{ v }}\n").await,
            _ => {
                t.open(B, "{{ h }}").await;
                pause(100).await;
                t.replace(&uri, "{{ w.x }}\n{{ y }}").await;
            }
        }
        t.settled(&mut m).await;
        if uri == A {
            open(&mut m, &on_disk(), "{{ x }}{% set x = 1 %}");
        }
        let p = (0, word("col"));
        t.ask(&mut m, &uri, p).await;
        t.ask_actions(&mut m, &uri, p).await;
    });
});

// Many documents at once.
entry!(h_c14_many, {
    file(&format!("{T}/{G}"), "{{ x }}");
    run(async {
        let s = session().await;
        let n = [1, 49, 50, 51, 60, 120][choose("n", 6)];
        let y = letter("y");
        let text = format!("{{{{ g }}}}{{{{ {y} }}}}");
        let uris: Vec<String> = (0..n).map(|i| format!("file://{T}/n{i}.html")).collect();
        let all = uris.iter().map(|u| s.server().did_open(opening(u, &text)));
        let r = tokio::time::timeout(Duration::from_secs(60), futures::future::join_all(all)).await;
        check(r.is_ok(), "every notification is taken");
        if choose("at once", 2) == 0 {
            pause(1000).await;
        }
        let h = answer(s.server().hover(HoverParams { text_document_position_params: tdp(&uris[n - 1], 0, 3), work_done_progress_params: wd() })).await;
        check(h.is_none(), "a name that nothing defines has no type");
        pause(1000).await;
        for u in &uris {
            check(s.published(u).is_some_and(|d| d.len() == 2), "every open document gets diagnostics");
        }
        cover("many");
    });
});

// Requests right after changes.
entry!(h_c14_now, {
    let mut m = LspFiles::default();
    file(&format!("{T}/{G}"), "{{ x }}");
    run(async {
        let s = session().await;
        m.config.templates = T.into();
        open(&mut m, &on_disk(), "{{ x }}");
        let mut t = Told { s, texts: vec![] };
        let y = letter("y");
        let first = format!("{{% set g = 1 %}}{{{{ {y} }}}}{{% include 'k' %}}");
        t.open(A, &first).await;
        open(&mut m, A, &first);
        let r = Range::new(Position::new(0, 0), Position::new(0, 0));
        for i in 0..2 {
            match choose(&format!("op{i}"), 6) {
                0 => {}
                1 => {
                    t.insert(A, "{{ u }}\n").await;
                    m.did_change(edit(A, Some(r), "{{ u }}\n"));
                }
                2 => {
                    t.insert(A, "{% ").await;
                    m.did_change(edit(A, Some(r), "{% "));
                }
                3 => {
                    t.replace(A, "{% for h in y %}{{ h.x }}\n{{ y").await;
                    m.did_change(edit(A, None, "{% for h in y %}{{ h.x }}\n{{ y"));
                }
                4 => {
                    t.open(A, "ab {{ u }}{{").await;
                    open(&mut m, A, "ab {{ u }}{{");
                }
                _ => {
                    t.save(A).await;
                    save(&mut m, A);
                }
            }
        }
        t.ask(&mut m, A, (0, word("col"))).await;
        cover("asked");
    });
});

// A missing template is created from its report, and the report goes away.
entry!(h_c14_create, {
    file(&format!("{T}/{G}"), "{{ x }}");
    run(async {
        let s = session().await;
        let mut t = Told { s, texts: vec![] };
        let k = ["k", "d/k.j2", "k k"][choose("k", 3)];
        t.open(A, &format!("{{% include '{k}' %}}{{{{ h }}}}")).await;
        pause(500).await;
        check(t.s.published(A).is_some_and(|d| d.len() == 2), "a missing template is reported");
        let at = Position::new(0, word("col"));
        let a = answer(t.s.server().code_action(CodeActionParams {
            text_document: TextDocumentIdentifier::new(url(A)),
            range: Range::new(at, at),
            context: Default::default(),
            work_done_progress_params: wd(),
            partial_result_params: Default::default(),
        }))
        .await
        .unwrap_or_default();
        let Some(CodeActionOrCommand::CodeAction(c)) = a.first() else {
            return check(!(at.character >= 11 && at.character <= 13 + k.len() as u32), "a missing template can be created");
        };
        let Some(DocumentChanges::Operations(ops)) = c.edit.as_ref().and_then(|e| e.document_changes.as_ref()) else {
            return check(!(at.character >= 11 && at.character <= 13 + k.len() as u32), "a missing template can be created");
        };
        for o in ops {
            if let DocumentChangeOperation::Op(ResourceOp::Create(f)) = o {
                file(f.uri.to_file_path().unwrap().to_str().unwrap(), "");
            }
        }
        if choose("edit", 2) == 1 {
            t.insert(A, "{{ u }}").await;
        }
        pause(3000).await;
        let left = t.s.published(A).unwrap_or_default();
        check(left.iter().all(|d| d.message != "Template not found"), "a created template is no longer missing");
        cover("created");
    });
});
