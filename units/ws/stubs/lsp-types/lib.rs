//! Stand-in for lsp-types: signatures only, never run.
#![allow(unused)]
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
macro_rules! ser { ($($t:ident)*) => { $(
impl Serialize for $t { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { todo!() } }
impl<'de> Deserialize<'de> for $t { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { todo!() } }
)* } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Url(String);
impl Url {
    pub fn from_file_path<P: AsRef<Path>>(p: P) -> Result<Url, ()> { todo!() }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> { todo!() }
    pub fn path(&self) -> &str { todo!() }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Position { pub line: u32, pub character: u32 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Range { pub start: Position, pub end: Position }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
#[derive(Debug, Clone)] pub struct TextDocumentIdentifier { pub uri: Url }
#[derive(Debug, Clone)] pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
#[derive(Debug, Clone)] pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
#[derive(Debug, Clone)] pub struct TextDocumentPositionParams { pub text_document: TextDocumentIdentifier, pub position: Position }
#[derive(Debug, Clone)] pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
#[derive(Debug, Clone)] pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
#[derive(Debug, Clone)] pub struct DidSaveTextDocumentParams { pub text_document: TextDocumentIdentifier, pub text: Option<String> }
#[derive(Debug, Clone)] pub struct CompletionParams { pub text_document_position: TextDocumentPositionParams }
#[derive(Debug, Clone)] pub struct HoverParams { pub text_document_position_params: TextDocumentPositionParams }
#[derive(Debug, Clone)] pub struct InitializeParams { pub root_uri: Option<Url> }
#[derive(Debug, Clone, Copy, PartialEq)] pub struct CompletionItemKind(i32);
impl CompletionItemKind { pub const FUNCTION: Self = Self(3); pub const CLASS: Self = Self(7); pub const FOLDER: Self = Self(19); pub const FILE: Self = Self(17); pub const CONSTANT: Self = Self(21); }
#[derive(Debug, Clone, PartialEq)] pub enum MarkupKind { PlainText, Markdown }
#[derive(Debug, Clone, PartialEq)] pub struct MarkupContent { pub kind: MarkupKind, pub value: String }
#[derive(Debug, Clone, PartialEq)] pub enum Documentation { String(String), MarkupContent(MarkupContent) }
#[derive(Debug, Clone, PartialEq, Default)] pub struct CompletionItem { pub label: String, pub kind: Option<CompletionItemKind>, pub detail: Option<String>, pub documentation: Option<Documentation> }
#[derive(Debug, Clone, PartialEq)] pub enum CompletionResponse { Array(Vec<CompletionItem>) }
impl From<Vec<CompletionItem>> for CompletionResponse { fn from(x: Vec<CompletionItem>) -> Self { todo!() } }
#[derive(Debug, Clone, PartialEq)] pub enum MarkedString { String(String) }
impl MarkedString { pub fn from_markdown(s: String) -> Self { todo!() } }
#[derive(Debug, Clone, PartialEq)] pub enum HoverContents { Scalar(MarkedString) }
#[derive(Debug, Clone, PartialEq)] pub struct Hover { pub contents: HoverContents, pub range: Option<Range> }
#[derive(Debug, Clone, PartialEq)] pub struct InitializeError { pub retry: bool }
#[derive(Debug, Clone, PartialEq, Default)] pub struct ServerInfo { pub name: String, pub version: Option<String> }
#[derive(Debug, Clone, Copy, PartialEq)] pub struct TextDocumentSyncKind(i32);
impl TextDocumentSyncKind { pub const NONE: Self = Self(0); pub const FULL: Self = Self(1); pub const INCREMENTAL: Self = Self(2); }
#[derive(Debug, Clone, PartialEq)] pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind) }
impl From<TextDocumentSyncKind> for TextDocumentSyncCapability { fn from(x: TextDocumentSyncKind) -> Self { todo!() } }
#[derive(Debug, Clone, PartialEq, Default)] pub struct CompletionOptions { pub resolve_provider: Option<bool>, pub trigger_characters: Option<Vec<String>> }
#[derive(Debug, Clone, PartialEq)] pub enum HoverProviderCapability { Simple(bool) }
impl From<bool> for HoverProviderCapability { fn from(x: bool) -> Self { todo!() } }
#[derive(Debug, Clone, PartialEq)] pub enum OneOf<A, B> { Left(A), Right(B) }
#[derive(Debug, Clone, PartialEq)] pub struct DefinitionOptions {}
#[derive(Debug, Clone, PartialEq, Default)] pub struct ServerCapabilities { pub text_document_sync: Option<TextDocumentSyncCapability>, pub completion_provider: Option<CompletionOptions>, pub hover_provider: Option<HoverProviderCapability>, pub definition_provider: Option<OneOf<bool, DefinitionOptions>> }
#[derive(Debug, Clone, PartialEq, Default)] pub struct InitializeResult { pub capabilities: ServerCapabilities, pub server_info: Option<ServerInfo> }
ser! { Url Position Range TextDocumentContentChangeEvent DidOpenTextDocumentParams DidChangeTextDocumentParams DidSaveTextDocumentParams CompletionParams HoverParams InitializeParams CompletionResponse Hover InitializeError InitializeResult }
pub mod request {
    pub trait Request { type Params: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static; type Result: serde::de::DeserializeOwned + serde::Serialize; const METHOD: &'static str; }
    pub enum Initialize {} impl Request for Initialize { type Params = super::InitializeParams; type Result = super::InitializeResult; const METHOD: &'static str = "initialize"; }
    pub enum Shutdown {} impl Request for Shutdown { type Params = (); type Result = (); const METHOD: &'static str = "shutdown"; }
    pub enum Completion {} impl Request for Completion { type Params = super::CompletionParams; type Result = Option<super::CompletionResponse>; const METHOD: &'static str = "textDocument/completion"; }
    pub enum HoverRequest {} impl Request for HoverRequest { type Params = super::HoverParams; type Result = Option<super::Hover>; const METHOD: &'static str = "textDocument/hover"; }
}
pub mod notification {
    pub trait Notification { type Params: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static; const METHOD: &'static str; }
    pub enum Exit {} impl Notification for Exit { type Params = (); const METHOD: &'static str = "exit"; }
    pub enum DidOpenTextDocument {} impl Notification for DidOpenTextDocument { type Params = super::DidOpenTextDocumentParams; const METHOD: &'static str = "textDocument/didOpen"; }
    pub enum DidChangeTextDocument {} impl Notification for DidChangeTextDocument { type Params = super::DidChangeTextDocumentParams; const METHOD: &'static str = "textDocument/didChange"; }
    pub enum DidSaveTextDocument {} impl Notification for DidSaveTextDocument { type Params = super::DidSaveTextDocumentParams; const METHOD: &'static str = "textDocument/didSave"; }
}
#[macro_export]
macro_rules! lsp_request {
    ("initialize") => { $crate::request::Initialize };
    ("shutdown") => { $crate::request::Shutdown };
    ("textDocument/completion") => { $crate::request::Completion };
    ("textDocument/hover") => { $crate::request::HoverRequest };
}
#[macro_export]
macro_rules! lsp_notification {
    ("exit") => { $crate::notification::Exit };
    ("textDocument/didOpen") => { $crate::notification::DidOpenTextDocument };
    ("textDocument/didChange") => { $crate::notification::DidChangeTextDocument };
    ("textDocument/didSave") => { $crate::notification::DidSaveTextDocument };
}
