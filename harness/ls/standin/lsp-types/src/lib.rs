//! The parts of lsp-types that the language server uses.
pub use url::Url;
use std::fmt::Debug;
pub type Value = serde_json::Value;
pub mod notification {
    pub trait Notification {
        type Params: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position {
    pub fn new(line: u32, character: u32) -> Self {
        Position { line, character }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range {
    pub fn new(start: Position, end: Position) -> Self {
        Range { start, end }
    }
}
macro_rules! consts {
    ($t:ident, $($n:ident = $v:expr),*) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $t(i32);
        impl $t { $(pub const $n: $t = $t($v);)* }
    };
}
consts!(DiagnosticSeverity, ERROR = 1, WARNING = 2, INFORMATION = 3, HINT = 4);
consts!(MessageType, ERROR = 1, WARNING = 2, INFO = 3, LOG = 4);
consts!(TextDocumentSyncKind, NONE = 0, FULL = 1, INCREMENTAL = 2);
consts!(CompletionItemKind, TEXT = 1, METHOD = 2, FUNCTION = 3, FIELD = 5, VARIABLE = 6, MODULE = 9, VALUE = 12, KEYWORD = 14, CONSTANT = 21, STRUCT = 22, TYPE_PARAMETER = 25);
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum NumberOrString {
    Number(i32),
    String(String),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CodeDescription {
    pub href: Url,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DiagnosticRelatedInformation {
    pub location: Location,
    pub message: String,
}
consts!(DiagnosticTag, UNNECESSARY = 1, DEPRECATED = 2);
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Diagnostic {
    pub range: Range,
    pub severity: Option<DiagnosticSeverity>,
    pub code: Option<NumberOrString>,
    pub code_description: Option<CodeDescription>,
    pub source: Option<String>,
    pub message: String,
    pub related_information: Option<Vec<DiagnosticRelatedInformation>>,
    pub tags: Option<Vec<DiagnosticTag>>,
    pub data: Option<Value>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Location {
    pub uri: Url,
    pub range: Range,
}
impl Location {
    pub fn new(uri: Url, range: Range) -> Self {
        Location { uri, range }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum OneOf<A, B> {
    Left(A),
    Right(B),
}
#[derive(Debug, Clone, Default)]
pub struct WorkDoneProgressParams {}
#[derive(Debug, Clone, Default)]
pub struct PartialResultParams {}
#[derive(Debug, Clone, Default)]
pub struct InitializeParams {
    pub initialization_options: Option<Value>,
    pub root_uri: Option<Url>,
}
#[derive(Debug, Clone)]
pub struct InitializedParams {}
#[derive(Debug, Clone, PartialEq)]
pub enum TextDocumentSyncCapability {
    Kind(TextDocumentSyncKind),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct CompletionOptions {
    pub trigger_characters: Option<Vec<String>>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct HoverOptions {}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct DefinitionOptions {}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct DocumentFormattingOptions {}
#[derive(Debug, Clone, PartialEq)]
pub enum HoverProviderCapability {
    Simple(bool),
    Options(HoverOptions),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ServerCapabilities {
    pub text_document_sync: Option<TextDocumentSyncCapability>,
    pub completion_provider: Option<CompletionOptions>,
    pub hover_provider: Option<HoverProviderCapability>,
    pub definition_provider: Option<OneOf<bool, DefinitionOptions>>,
    pub document_formatting_provider: Option<OneOf<bool, DocumentFormattingOptions>>,
    pub document_range_formatting_provider: Option<OneOf<bool, DocumentFormattingOptions>>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ServerInfo {
    pub name: String,
    pub version: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    pub server_info: Option<ServerInfo>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TextDocumentIdentifier {
    pub uri: Url,
}
#[derive(Debug, Clone)]
pub struct TextDocumentItem {
    pub uri: Url,
    pub language_id: String,
    pub version: i32,
    pub text: String,
}
#[derive(Debug, Clone)]
pub struct VersionedTextDocumentIdentifier {
    pub uri: Url,
    pub version: i32,
}
#[derive(Debug, Clone)]
pub struct TextDocumentContentChangeEvent {
    pub range: Option<Range>,
    pub range_length: Option<u32>,
    pub text: String,
}
#[derive(Debug, Clone)]
pub struct DidOpenTextDocumentParams {
    pub text_document: TextDocumentItem,
}
#[derive(Debug, Clone)]
pub struct DidChangeTextDocumentParams {
    pub text_document: VersionedTextDocumentIdentifier,
    pub content_changes: Vec<TextDocumentContentChangeEvent>,
}
#[derive(Debug, Clone)]
pub struct DidCloseTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
}
#[derive(Debug, Clone)]
pub struct DidSaveTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
    pub text: Option<String>,
}
#[derive(Debug, Clone)]
pub struct TextDocumentPositionParams {
    pub text_document: TextDocumentIdentifier,
    pub position: Position,
}
#[derive(Debug, Clone)]
pub struct GotoDefinitionParams {
    pub text_document_position_params: TextDocumentPositionParams,
    pub work_done_progress_params: WorkDoneProgressParams,
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq)]
pub enum GotoDefinitionResponse {
    Scalar(Location),
    Array(Vec<Location>),
}
#[derive(Debug, Clone)]
pub struct HoverParams {
    pub text_document_position_params: TextDocumentPositionParams,
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MarkupKind {
    PlainText,
    Markdown,
}
#[derive(Debug, Clone, PartialEq)]
pub struct MarkupContent {
    pub kind: MarkupKind,
    pub value: String,
}
#[derive(Debug, Clone, PartialEq)]
pub enum HoverContents {
    Markup(MarkupContent),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Hover {
    pub contents: HoverContents,
    pub range: Option<Range>,
}
#[derive(Debug, Clone)]
pub struct CompletionParams {
    pub text_document_position: TextDocumentPositionParams,
    pub work_done_progress_params: WorkDoneProgressParams,
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Documentation {
    String(String),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct CompletionItem {
    pub label: String,
    pub kind: Option<CompletionItemKind>,
    pub detail: Option<String>,
    pub documentation: Option<Documentation>,
    pub sort_text: Option<String>,
    pub insert_text: Option<String>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum CompletionResponse {
    Array(Vec<CompletionItem>),
}
#[derive(Debug, Clone, Default)]
pub struct FormattingOptions {
    pub tab_size: u32,
    pub insert_spaces: bool,
}
#[derive(Debug, Clone)]
pub struct DocumentFormattingParams {
    pub text_document: TextDocumentIdentifier,
    pub options: FormattingOptions,
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone)]
pub struct DocumentRangeFormattingParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    pub options: FormattingOptions,
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TextEdit {
    pub range: Range,
    pub new_text: String,
}
