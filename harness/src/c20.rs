//! Which configuration the server runs with, and what it does.
use crate::{c01::*, c03::letter, c05, c08::T, c14::*, entry, rt::*, util::*};
use jinja_lsp::hooks::{search_config, walkdir, JinjaConfig};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;
use serde_json::{json, Value};
use tower_lsp::{lsp_types::*, LanguageServer};

fn any(n: &str) -> String {
    let b = bytes(n, 1, |b| (0x20..0x7f).contains(&b) && b != b'"' && b != b'\\');
    String::from_utf8(b).unwrap()
}
fn table(t: &str, b: &str, l: &str, hide: usize) -> String {
    let mut s = format!("[jinja-lsp]\nlang = \"{l}\"\ntemplates = \"./{t}\"\nbackend = [\"{b}\", \"k\"]\n");
    match hide {
        0 => {}
        1 => s.push_str("hide_undefined = true\n"),
        _ => s.push_str("hide_undefined = false\n"),
    }
    s
}

// Which of the files in the working directory is the configuration.
entry!(h_c20_search, {
    let names = ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"];
    let mut want = None;
    for (i, n) in names.iter().enumerate() {
        let state = choose(n, 7);
        let (t, b, l) = (any(&format!("t{i}")), any(&format!("b{i}")), any(&format!("l{i}")));
        let content = match state {
            0 => continue,
            1 => String::new(),
            2 => "[package]\nname = \"x\"\n[jinja]\nlang = \"rust\"\n".into(),
            // not all that is needed
            3 => format!("[jinja-lsp]\ntemplates = \"{t}\"\nbackend = []\n"),
            // not TOML
            4 => format!("{}\n[jinja-lsp", table(&t, &b, &l, 0)),
            5 => format!("[package]\nname = \"x\"\n\n{}[other]\nlang = \"go\"\n", table(&t, &b, &l, i)),
            _ => table(&t, &b, &l, 0),
        };
        file(&format!("{ROOT}/{n}"), &content);
        if state >= 5 && want.is_none() {
            let hide = if state == 5 { [None, Some(true), Some(false)][i] } else { None };
            want = Some((format!("./{t}"), vec![b, "k".to_string()], l, hide));
        }
    }
    match (search_config(), want) {
        (None, None) => cover("none"),
        (Some(c), Some((t, b, l, hide))) => {
            check(c.templates.to_str() == Some(&t[..]), "the template directory is the configured one");
            check(c.backend == b && c.lang == l, "sources and language are the configured ones");
            check(c.hide_undefined == hide && c.user_defined, "the options are the configured ones");
            cover("found");
        }
        (None, Some(_)) => check(false, "a file that configures the server is found"),
        (Some(_), None) => check(false, "a file that does not configure the server is passed over"),
    }
});

/// A workspace with two of everything.
fn workspace(x: &str) {
    for t in ["t", "u"] {
        file(&format!("{ROOT}/{t}/{t}.html"), &format!("{{{{ {x} }}}}{{% include '{t}.html' %}}{{% include 'k' %}}"));
        file(&format!("{ROOT}/{t}/n.html"), "{{ w }}");
    }
    file(&format!("{ROOT}/s/m.rs"), "fn f() { context!(g => 1); }\n");
    file(&format!("{ROOT}/s/n.py"), "render(h=1)\n");
    file(&format!("{ROOT}/r/m.rs"), "fn f() { context!(k => 1); }\n");
}
#[derive(Clone, PartialEq)]
struct Conf {
    templates: &'static str,
    backend: &'static [&'static str],
    lang: &'static str,
    hide: Option<bool>,
}
const CONFS: [Conf; 6] = [
    Conf { templates: "t", backend: &["s", "r"], lang: "rust", hide: None },
    Conf { templates: "./u", backend: &["s"], lang: "python", hide: None },
    Conf { templates: "/tmp/vsr/t", backend: &["r"], lang: "rust", hide: Some(true) },
    Conf { templates: "u/", backend: &[], lang: "rust", hide: Some(false) },
    // no such directory
    Conf { templates: "o", backend: &[], lang: "rust", hide: None },
    // no such language
    Conf { templates: "t", backend: &[], lang: "go", hide: None },
];
impl Conf {
    fn json(&self) -> Value {
        let mut v = json!({"templates": self.templates, "backend": self.backend, "lang": self.lang});
        if self.hide.is_some() {
            v["hide_undefined"] = json!(self.hide);
        }
        v
    }
    fn toml(&self) -> String {
        let hide = self.hide.map_or(String::new(), |h| format!("hide_undefined = {h}\n"));
        format!("[jinja-lsp]\ntemplates = \"{}\"\nbackend = {:?}\nlang = \"{}\"\n{hide}", self.templates, self.backend, self.lang)
    }
    fn works(&self) -> bool {
        self.templates != "o" && self.lang != "go"
    }
    fn dir(&self) -> &'static str {
        if self.templates.contains('u') {
            "u"
        } else {
            "t"
        }
    }
    /// Names the sources hand over.
    fn known(&self) -> Vec<&'static str> {
        let mut v = vec![];
        for b in self.backend {
            v.push(match (*b, self.lang) {
                ("s", "rust") => "g",
                ("s", _) => "h",
                _ => "k",
            });
        }
        v
    }
    /// What should be shown for the templates on disk.
    fn due(&self, t: &str, x: &str) -> Vec<String> {
        if self.dir() != t {
            return vec![];
        }
        let mut v = vec!["Template not found 40".to_string()];
        if self.hide != Some(true) {
            let m = if self.known().contains(&x) { JinjaDiagnostic::DefinedSomewhere } else { JinjaDiagnostic::Undefined };
            v.push(format!("{m} 3"));
        }
        v.sort();
        v
    }
}
fn shown(s: &Session, uri: &str) -> Vec<String> {
    let mut v: Vec<String> =
        s.published(uri).unwrap_or_default().iter().map(|d| format!("{} {}", d.message, d.range.start.character)).collect();
    v.sort();
    v
}
fn judge(s: &Session, c: &Conf, x: &str) {
    for t in ["t", "u"] {
        check(shown(s, &format!("file://{ROOT}/{t}/{t}.html")) == c.due(t, x), "what is shown follows the configuration");
    }
}

// The configuration is the client's, or that of the working directory.
entry!(h_c20_start, {
    let x = letter("x");
    workspace(&x);
    run(async {
        let client = choose("client", CONFS.len() + 3);
        let disk = choose("disk", 3);
        let mut conf = None;
        if disk > 0 {
            let c = &CONFS[disk - 1];
            file(&format!("{ROOT}/{}", ["Cargo.toml", "jinja-lsp.toml"][disk - 1]), &c.toml());
            conf = Some(c);
        }
        let mut params = json!({"capabilities": {}});
        match client.checked_sub(CONFS.len()) {
            None => {
                params["initializationOptions"] = CONFS[client].json();
                conf = Some(&CONFS[client]);
            }
            Some(0) => {}
            Some(1) => params["initializationOptions"] = json!({}),
            Some(_) => params["initializationOptions"] = json!({"templates": "u", "backend": "s", "lang": "rust"}),
        }
        let s = Session::start(params).await;
        pause(1000).await;
        note(&x);
        let said = s.said();
        let has = |m: &str| said.iter().any(|s| s == m);
        check(has("Config doesn't exist.") == conf.is_none(), "the client is told if there is no configuration");
        check(has("Backend language not supported") == conf.is_none_or(|c| c.lang == "go"), "the client is told if its language is not supported");
        match conf {
            Some(c) if c.works() => {
                judge(&s, c, &x);
                cover("works");
            }
            _ => {
                for t in ["t", "u"] {
                    check(shown(&s, &format!("file://{ROOT}/{t}/{t}.html")).is_empty(), "nothing is reported without a configuration");
                }
                cover("does not work");
            }
        }
    });
});

// The configuration changes while the server runs.
entry!(h_c20_change, {
    let x = letter("x");
    workspace(&x);
    run(async {
        let from = &CONFS[choose("from", 2)];
        let s = Session::start(json!({"capabilities": {}, "initializationOptions": from.json()})).await;
        pause(1000).await;
        let opened = choose("opened", 2) == 1;
        if opened {
            s.server().did_open(opening(A, "{{ g }}{{ h }}{{ k }}{% include 't.html' %}")).await;
        }
        let to = &CONFS[choose("to", 4)];
        s.server().did_change_configuration(DidChangeConfigurationParams { settings: to.json() }).await;
        pause(1000).await;
        note(&x);
        judge(&s, to, &x);
        if opened {
            let mut want = vec![];
            if to.dir() == "u" {
                want.push("Template not found 32".to_string());
            }
            if to.hide != Some(true) {
                for (i, n) in ["g", "h", "k"].iter().enumerate() {
                    let m = if to.known().contains(n) { JinjaDiagnostic::DefinedSomewhere } else { JinjaDiagnostic::Undefined };
                    want.push(format!("{m} {}", 3 + 7 * i));
                }
            }
            want.sort();
            check(shown(&s, A) == want, "what is shown for an open document follows the configuration");
            cover("opened");
        }
        cover("changed");
    });
});

// Undefined variables can be hidden; nothing else changes.
entry!(h_c20_hide, {
    let mut m = LspFiles::default();
    dir(T);
    let config = |hide| JinjaConfig { templates: T.into(), backend: vec![], lang: "rust".into(), user_defined: true, hide_undefined: hide };
    let hide = [None, Some(true), Some(false)][choose("hide", 3)];
    let Ok((_, mut l)) = walkdir(&config(hide)) else { return check(false, "a workspace is read") };
    m.config.templates = T.into();
    let (x, y) = (letter("x"), letter("y"));
    let d = c05::shape(choose("shape", c05::SHAPES), "g", &y, "h");
    let text = format!("{}{{{{ {x}.k }}}}{{% include '{x}' %}}", d.s);
    for l in [&mut l, &mut m] {
        open(l, B, &format!("{{% set {y} = 1 %}}"));
    }
    let (a, b) = (open(&mut l, A, &text), open(&mut m, A, &text));
    note(&text);
    let mut b = b.unwrap_or_default();
    let all = b.len();
    if hide == Some(true) {
        b.retain(|d| d.0 == JinjaDiagnostic::TemplateNotFound);
        cover("hidden");
    }
    check(!b.is_empty() && all > 0, "a missing template is always reported");
    check(sorted(Some(a.unwrap_or_default())) == sorted(Some(b)), "exactly the undefined variables are hidden");
    check(view(&l, A) == view(&m, A), "hiding changes nothing else");
    let p = (0, word("col"));
    check(locations(&goto(&l, A, p.0, p.1)) == locations(&goto(&m, A, p.0, p.1)), "hiding changes nothing else");
    cover("compared");
});
