//! Stand-in for lsp-server: signatures only, never run.
#![allow(unused)]
use crossbeam::channel::{Receiver, Sender};
use serde_json::Value;
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RequestId(String);
#[derive(Debug, Clone)] pub struct Request { pub id: RequestId, pub method: String, pub params: Value }
#[derive(Debug, Clone)] pub struct Response { pub id: RequestId, pub result: Option<Value>, pub error: Option<ResponseError> }
#[derive(Debug, Clone)] pub struct ResponseError { pub code: i32, pub message: String, pub data: Option<Value> }
#[derive(Debug, Clone)] pub struct Notification { pub method: String, pub params: Value }
#[derive(Debug, Clone)] pub enum Message { Request(Request), Response(Response), Notification(Notification) }
impl From<Request> for Message { fn from(x: Request) -> Self { todo!() } }
impl From<Response> for Message { fn from(x: Response) -> Self { todo!() } }
impl From<Notification> for Message { fn from(x: Notification) -> Self { todo!() } }
pub struct Connection { pub sender: Sender<Message>, pub receiver: Receiver<Message> }
pub struct IoThreads(());
impl Connection { pub fn stdio() -> (Connection, IoThreads) { todo!() } }
