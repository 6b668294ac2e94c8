//! Stand-in for glob: signatures only, never run.
#![allow(unused)]
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct PatternError { pub pos: usize, pub msg: &'static str }
impl std::fmt::Display for PatternError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
#[derive(Debug)]
pub struct GlobError(());
impl std::fmt::Display for GlobError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
pub struct Paths(());
impl Iterator for Paths { type Item = Result<PathBuf, GlobError>; fn next(&mut self) -> Option<Self::Item> { todo!() } }
pub fn glob(s: &str) -> Result<Paths, PatternError> { todo!() }
