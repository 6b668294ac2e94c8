//! Stand-in for colored: signatures only, never run.
#![allow(unused)]
use std::{fmt, ops::Deref};
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl Deref for ColoredString { type Target = str; fn deref(&self) -> &str { todo!() } }
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() } }
impl<'a> From<&'a str> for ColoredString { fn from(s: &'a str) -> Self { todo!() } }
macro_rules! c { ($($n:ident)*) => {
pub trait Colorize { $( fn $n(self) -> ColoredString where Self: Sized { todo!() } )* }
}}
c! { black red green yellow blue magenta purple cyan white bright_black bright_red bright_green bright_yellow bright_blue bright_magenta bright_purple bright_cyan bright_white on_black on_red on_green on_yellow on_blue on_magenta on_purple on_cyan on_white on_bright_black on_bright_red on_bright_green on_bright_yellow on_bright_blue on_bright_magenta on_bright_purple on_bright_cyan on_bright_white clear normal bold dimmed italic underline blink reversed hidden strikethrough }
impl Colorize for ColoredString {}
impl<'a> Colorize for &'a str {}
pub mod control { pub fn set_override(b: bool) { todo!() } pub fn unset_override() { todo!() } }
