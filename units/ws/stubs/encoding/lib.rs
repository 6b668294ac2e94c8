//! Stand-in for encoding: signatures only, never run.
#![allow(unused)]
use std::borrow::Cow;
pub enum DecoderTrap { Strict, Replace, Ignore }
pub trait Encoding { fn name(&self) -> &'static str; }
pub type EncodingRef = &'static (dyn Encoding + Send + Sync);
pub struct Utf8;
impl Encoding for Utf8 { fn name(&self) -> &'static str { todo!() } }
pub mod all { pub const UTF_8: super::EncodingRef = &super::Utf8; }
pub fn decode(input: &[u8], trap: DecoderTrap, fallback: EncodingRef) -> (Result<String, Cow<'static, str>>, EncodingRef) { todo!() }
