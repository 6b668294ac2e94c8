//! Stand-in for numfmt: signatures only, never run.
#![allow(unused)]
#[derive(Debug, Clone, PartialEq)]
pub struct Formatter(String);
impl Default for Formatter { fn default() -> Self { todo!() } }
impl Formatter { pub fn new() -> Self { todo!() } pub fn fmt(&mut self, n: f64) -> &str { todo!() } }
impl std::str::FromStr for Formatter { type Err = ParseError; fn from_str(s: &str) -> Result<Self, ParseError> { todo!() } }
#[derive(Debug)]
pub struct ParseError;
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
impl std::error::Error for ParseError {}
