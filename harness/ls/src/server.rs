//! A server under a schedule, fed with the messages of a scenario, and what it ought to say.
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::{module_all_diagnostics, Crate, SemanticDatabaseImpl};
use cairo_m_ls::Backend;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, LanguageServer, Sent};
use vpsched::{Outcome, Suspend, Wait};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open(usize, String),
    Change(usize, String),
    /// One message with two changes.
    Changes(usize, String, String),
    /// The client waits until the server is idle.
    Settle,
    /// The time of the database swap comes at some point from here on.
    Swap,
    /// The manifest of the project is touched.
    Manifest,
    Ask(Ask),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ask {
    Hover(usize, u32, u32),
    Definition(usize, u32, u32),
    Complete(usize, u32, u32),
    Format(usize),
}
impl Ask {
    pub fn file(&self) -> usize {
        match self {
            Ask::Hover(f, ..) | Ask::Definition(f, ..) | Ask::Complete(f, ..) | Ask::Format(f) => *f,
        }
    }
}
#[derive(Default, Clone, Debug)]
pub struct Heard {
    /// In order; an answer carries the number of its event.
    pub sent: Vec<Sent>,
    pub answers: BTreeMap<usize, String>,
    /// What was said when the last event had been handled.
    pub done: bool,
}
pub struct World {
    /// path and text on disk
    pub files: Vec<(PathBuf, String)>,
    /// which files make up the project
    pub project: Vec<usize>,
}
pub fn url(w: &World, f: usize) -> Url {
    Url::from_file_path(&w.files[f].0).unwrap()
}
struct Group(u64);
impl Suspend for Group {
    fn leave(&self) {
        vpsched::release(self.0)
    }
    fn back(&self) {
        while !vpsched::try_acquire(self.0, true) {
            vpsched::wait(vec![Wait::Res(self.0)]);
        }
    }
}
fn at(w: &World, f: usize, l: u32, c: u32) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri: url(w, f) }, position: Position::new(l, c) }
}
pub async fn answer(b: &Backend, w: &World, a: &Ask) -> String {
    match a {
        Ask::Hover(f, l, c) => format!(
            "{:?}",
            b.hover(HoverParams { text_document_position_params: at(w, *f, *l, *c), work_done_progress_params: Default::default() }).await
        ),
        Ask::Definition(f, l, c) => format!(
            "{:?}",
            b.goto_definition(GotoDefinitionParams {
                text_document_position_params: at(w, *f, *l, *c),
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default()
            })
            .await
        ),
        Ask::Complete(f, l, c) => {
            let r = b
                .completion(CompletionParams {
                    text_document_position: at(w, *f, *l, *c),
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                })
                .await;
            match r {
                Ok(Some(CompletionResponse::Array(v))) => {
                    let mut v: Vec<_> = v.iter().map(|i| format!("{:?}", (&i.label, &i.kind, &i.detail))).collect();
                    v.sort();
                    v.join(" ")
                }
                x => format!("{x:?}"),
            }
        }
        Ask::Format(f) => {
            let r = b
                .formatting(DocumentFormattingParams {
                    text_document: TextDocumentIdentifier { uri: url(w, *f) },
                    options: Default::default(),
                    work_done_progress_params: Default::default(),
                })
                .await;
            match r {
                Ok(Some(v)) => {
                    let v: Vec<_> = v.iter().map(|e| (e.range.start.line, e.range.start.character, e.range.end.line, e.range.end.character, &e.new_text)).collect();
                    serde_json::to_string(&v).unwrap()
                }
                x => format!("{x:?}"),
            }
        }
    }
}
/// Byte offset of a position, as the protocol has it.
pub fn offset(text: &str, line: u32, ch: u32) -> usize {
    let mut at = 0;
    for _ in 0..line {
        match text[at..].find('\n') {
            Some(i) => at += i + 1,
            None => return text.len(),
        }
    }
    let mut n = 0;
    for c in text[at..].chars() {
        if n >= ch || c == '\n' {
            break;
        }
        n += c.len_utf16() as u32;
        at += c.len_utf8();
    }
    at
}
/// Runs a scenario under a schedule; afterwards each of `last` is asked of the settled server.
pub fn run(w: &Arc<World>, evs: &[Ev], last: &[Ask], script: &[(usize, u8)], seed: u64, logging: bool) -> (Outcome, Heard) {
    let heard: Arc<Mutex<Heard>> = Default::default();
    let h = heard.clone();
    let w = w.clone();
    let evs = evs.to_vec();
    let last = last.to_vec();
    let o = vpsched::run(script, seed, 20_000, logging, move || {
        let client = Client::default();
        let b = Arc::new(Backend::new(client.clone()));
        let watch = notify::LAST.with(|l| l.borrow_mut().take());
        let g = vpsched::resource();
        let room = vpsched::resource();
        vpsched::block_on(b.initialize(InitializeParams::default()), None).unwrap();
        vpsched::block_on(b.initialized(InitializedParams {}), None);
        let active = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let mut version = 0;
        for (n, e) in evs.into_iter().enumerate() {
            match e {
                Ev::Settle => vpsched::settle(),
                Ev::Swap => vpsched::permit_tick(),
                Ev::Manifest => {
                    let Some(watch) = watch.clone() else { continue };
                    let p = w.files[w.project[0]].0.parent().unwrap().parent().unwrap().join("cairom.toml");
                    vpsched::spawn("watcher", false, move || {
                        // it may come at any point from here on
                        vpsched::wait(vec![Wait::Late]);
                        (watch.lock().unwrap())(Ok(notify::Event { paths: vec![p] }))
                    });
                }
                e => {
                    // the server handles up to four messages at a time; one runs until it waits
                    while active.load(std::sync::atomic::Ordering::SeqCst) >= 4 {
                        vpsched::wait(vec![Wait::Res(room)]);
                    }
                    vpsched::acquire(g, true, "next message");
                    active.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    version += 1;
                    let (b, w, h, active) = (b.clone(), w.clone(), h.clone(), active.clone());
                    vpsched::note(|| format!("message {n}: {e:?}"));
                    vpsched::spawn("handler", false, move || {
                        let w2 = w.clone();
                        vpsched::block_on(
                            async {
                                match e {
                                    Ev::Open(f, text) => {
                                        b.did_open(DidOpenTextDocumentParams {
                                            text_document: TextDocumentItem { uri: url(&w2, f), language_id: "cairo-m".into(), version, text },
                                        })
                                        .await
                                    }
                                    Ev::Change(f, text) => {
                                        b.did_change(DidChangeTextDocumentParams {
                                            text_document: VersionedTextDocumentIdentifier { uri: url(&w2, f), version },
                                            content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text }],
                                        })
                                        .await
                                    }
                                    Ev::Changes(f, one, two) => {
                                        let c = |text| TextDocumentContentChangeEvent { range: None, range_length: None, text };
                                        b.did_change(DidChangeTextDocumentParams {
                                            text_document: VersionedTextDocumentIdentifier { uri: url(&w2, f), version },
                                            content_changes: vec![c(one), c(two)],
                                        })
                                        .await
                                    }
                                    Ev::Ask(a) => {
                                        let r = answer(&b, &w2, &a).await;
                                        h.lock().unwrap().answers.insert(n, r);
                                    }
                                    _ => unreachable!(),
                                }
                            },
                            Some(&Group(g)),
                        );
                        active.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                        vpsched::release(g);
                        vpsched::wake(room);
                    });
                }
            }
        }
        vpsched::settle();
        for (i, a) in last.iter().enumerate() {
            let r = vpsched::block_on(answer(&b, &w, a), None);
            h.lock().unwrap().answers.insert(1000 + i, r);
        }
        vpsched::settle();
        let mut h = h.lock().unwrap();
        h.sent = client.0.lock().unwrap().clone();
        h.done = true;
        drop(h);
        vpsched::finish();
    });
    let r = heard.lock().unwrap().clone();
    (o, r)
}
/// Line and column (in UTF-16 units) of a byte offset.
pub fn position(text: &str, off: usize) -> Position {
    let before = &text[..off.min(text.len())];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    Position::new(line, before[start..].encode_utf16().count() as u32)
}
pub type Said = Vec<(Range, DiagnosticSeverity, String)>;
pub fn said(v: &[Diagnostic]) -> Said {
    let mut v: Said = v.iter().map(|d| (d.range, d.severity.unwrap(), d.message.clone())).collect();
    v.sort();
    v
}
/// The diagnostics of the files, analysed from scratch; `texts` are those of the open files.
pub fn expected(w: &World, texts: &BTreeMap<usize, String>) -> BTreeMap<usize, Said> {
    let text = |f: usize| texts.get(&f).unwrap_or(&w.files[f].1).clone();
    let mut out = BTreeMap::new();
    let mut groups: Vec<Vec<usize>> = vec![];
    if texts.keys().any(|f| w.project.contains(f)) {
        groups.push(w.project.clone());
    }
    groups.extend(texts.keys().filter(|f| !w.project.contains(f)).map(|f| vec![*f]));
    for g in groups {
        let db = SemanticDatabaseImpl::default();
        let mut mods = HashMap::new();
        let mut names = vec![];
        let root = w.files[g[0]].0.parent().unwrap().to_path_buf();
        for f in &g {
            let n = w.files[*f].0.strip_prefix(&root).unwrap().with_extension("").to_string_lossy().replace('/', "::");
            mods.insert(n.clone(), SourceFile::new(&db, text(*f), n.clone()));
            names.push(n);
        }
        let c = Crate::new(&db, mods, names[0].clone(), root, "t".into());
        for (f, n) in g.iter().zip(&names) {
            let t = text(*f);
            let mut v: Said = module_all_diagnostics(&db, c, n.clone())
                .iter()
                .map(|d| {
                    use cairo_m_compiler_diagnostics::DiagnosticSeverity as S;
                    let s = match d.severity {
                        S::Error => DiagnosticSeverity::ERROR,
                        S::Warning => DiagnosticSeverity::WARNING,
                        S::Info => DiagnosticSeverity::INFORMATION,
                        S::Hint => DiagnosticSeverity::HINT,
                    };
                    (Range::new(position(&t, d.span.start), position(&t, d.span.end)), s, d.message.clone())
                })
                .collect();
            v.sort();
            out.insert(*f, v);
        }
    }
    out
}
/// What was published last for each file.
pub fn published(w: &World, sent: &[Sent]) -> BTreeMap<usize, Said> {
    let mut out = BTreeMap::new();
    for s in sent {
        if let Sent::Diagnostics(u, d, _) = s {
            if let Some(f) = (0..w.files.len()).find(|f| &url(w, *f) == u) {
                out.insert(f, said(d));
            }
        }
    }
    out
}
