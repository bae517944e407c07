//! The parts of tower-lsp that the language server uses: a client that records, and the server trait.
pub use lsp_types;
pub use vp_async_trait::async_trait;
use lsp_types::*;
use std::sync::{Arc, Mutex};
pub mod jsonrpc {
    #[derive(Debug, Clone, PartialEq)]
    pub struct Error {
        pub message: String,
    }
    impl Error {
        pub fn internal_error() -> Self {
            Error { message: "internal error".into() }
        }
        pub fn method_not_found() -> Self {
            Error { message: "method not found".into() }
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
#[derive(Debug, Clone, PartialEq)]
pub enum Sent {
    Diagnostics(Url, Vec<Diagnostic>, Option<i32>),
    Show(MessageType, String),
    Log(MessageType, String),
    Other(&'static str, serde_json::Value),
}
#[derive(Clone, Default)]
pub struct Client(pub Arc<Mutex<Vec<Sent>>>);
impl Client {
    fn put(&self, s: Sent) {
        if matches!(s, Sent::Diagnostics(..)) {
            vpsched::point("to client");
        }
        vpsched::note(|| format!("{s:?}"));
        self.0.lock().unwrap().push(s);
    }
    pub async fn publish_diagnostics(&self, uri: Url, d: Vec<Diagnostic>, version: Option<i32>) {
        self.put(Sent::Diagnostics(uri, d, version))
    }
    pub async fn show_message(&self, t: MessageType, m: impl std::fmt::Display) {
        self.put(Sent::Show(t, m.to_string()))
    }
    pub async fn log_message(&self, t: MessageType, m: impl std::fmt::Display) {
        self.put(Sent::Log(t, m.to_string()))
    }
    pub async fn send_notification<N: notification::Notification>(&self, p: N::Params) {
        self.put(Sent::Other(N::METHOD, serde_json::to_value(p).unwrap()))
    }
}
#[allow(async_fn_in_trait, unused_variables)]
pub trait LanguageServer: Send + Sync + 'static {
    fn initialize(&self, p: InitializeParams) -> impl std::future::Future<Output = jsonrpc::Result<InitializeResult>> + Send;
    fn initialized(&self, p: InitializedParams) -> impl std::future::Future<Output = ()> + Send {
        async {}
    }
    fn shutdown(&self) -> impl std::future::Future<Output = jsonrpc::Result<()>> + Send;
    fn did_open(&self, p: DidOpenTextDocumentParams) -> impl std::future::Future<Output = ()> + Send {
        async {}
    }
    fn did_change(&self, p: DidChangeTextDocumentParams) -> impl std::future::Future<Output = ()> + Send {
        async {}
    }
    fn did_save(&self, p: DidSaveTextDocumentParams) -> impl std::future::Future<Output = ()> + Send {
        async {}
    }
    fn did_close(&self, p: DidCloseTextDocumentParams) -> impl std::future::Future<Output = ()> + Send {
        async {}
    }
    fn goto_definition(
        &self,
        p: GotoDefinitionParams,
    ) -> impl std::future::Future<Output = jsonrpc::Result<Option<GotoDefinitionResponse>>> + Send {
        async { Err(jsonrpc::Error::method_not_found()) }
    }
    fn hover(&self, p: HoverParams) -> impl std::future::Future<Output = jsonrpc::Result<Option<Hover>>> + Send {
        async { Err(jsonrpc::Error::method_not_found()) }
    }
    fn completion(
        &self,
        p: CompletionParams,
    ) -> impl std::future::Future<Output = jsonrpc::Result<Option<CompletionResponse>>> + Send {
        async { Err(jsonrpc::Error::method_not_found()) }
    }
    fn formatting(
        &self,
        p: DocumentFormattingParams,
    ) -> impl std::future::Future<Output = jsonrpc::Result<Option<Vec<TextEdit>>>> + Send {
        async { Err(jsonrpc::Error::method_not_found()) }
    }
    fn range_formatting(
        &self,
        p: DocumentRangeFormattingParams,
    ) -> impl std::future::Future<Output = jsonrpc::Result<Option<Vec<TextEdit>>>> + Send {
        async { Err(jsonrpc::Error::method_not_found()) }
    }
}
