//! Stand-in for kdr-aus/divvy: signatures only, never run.
#![allow(unused)]
use std::{borrow::Borrow, fmt, ops::Deref, sync::Arc};
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Str(String);
impl Str {
    pub fn new<S: AsRef<str>>(s: S) -> Self { todo!() }
    pub fn as_str(&self) -> &str { todo!() }
    pub fn to_mut(&mut self) -> &mut String { todo!() }
}
impl fmt::Debug for Str { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() } }
impl fmt::Display for Str { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() } }
impl Deref for Str { type Target = str; fn deref(&self) -> &str { todo!() } }
impl AsRef<str> for Str { fn as_ref(&self) -> &str { todo!() } }
impl Borrow<str> for Str { fn borrow(&self) -> &str { todo!() } }
impl From<&str> for Str { fn from(s: &str) -> Self { todo!() } }
impl From<String> for Str { fn from(s: String) -> Self { todo!() } }
impl From<&String> for Str { fn from(s: &String) -> Self { todo!() } }
impl From<char> for Str { fn from(s: char) -> Self { todo!() } }
impl PartialEq<str> for Str { fn eq(&self, o: &str) -> bool { todo!() } }
impl PartialEq<&str> for Str { fn eq(&self, o: &&str) -> bool { todo!() } }
impl PartialOrd<str> for Str { fn partial_cmp(&self, o: &str) -> Option<std::cmp::Ordering> { todo!() } }
impl PartialEq<String> for Str { fn eq(&self, o: &String) -> bool { todo!() } }
impl FromIterator<char> for Str { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { todo!() } }
impl From<Str> for String { fn from(s: Str) -> String { todo!() } }

#[derive(Clone, Debug)]
pub struct Switch(Arc<std::sync::atomic::AtomicBool>);
impl Switch {
    pub fn off() -> Self { todo!() }
    pub fn on() -> Self { todo!() }
    pub fn get(&self) -> bool { todo!() }
    pub fn is_on(&self) -> bool { todo!() }
    pub fn is_off(&self) -> bool { todo!() }
    pub fn flip_on(&self) { todo!() }
    pub fn flip_off(&self) { todo!() }
}
impl Default for Switch { fn default() -> Self { todo!() } }

#[derive(Clone)]
pub struct ProgressTx(());
impl ProgressTx {
    pub fn dummy() -> Self { todo!() }
    pub fn send<P: Into<Option<f32>>, S: Into<String>>(&self, percent: P, msg: S) { todo!() }
    pub fn cancelled(&self) -> bool { todo!() }
}
