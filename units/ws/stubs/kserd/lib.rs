//! Stand-in for kserd: signatures only, never run.
#![allow(unused)]
use std::{borrow::Cow, collections::BTreeMap, fmt, ops};
#[derive(Clone, Copy, Debug)]
pub struct Number(f64);
impl Number { pub fn as_f64(&self) -> f64 { todo!() } pub fn as_u128(&self) -> Result<u128, String> { todo!() } pub fn as_i128(&self) -> Result<i128, String> { todo!() } }
impl PartialEq for Number { fn eq(&self, o: &Self) -> bool { todo!() } }
impl Eq for Number {}
impl PartialOrd for Number { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { todo!() } }
impl Ord for Number { fn cmp(&self, o: &Self) -> std::cmp::Ordering { todo!() } }
impl std::hash::Hash for Number { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { todo!() } }
impl fmt::Display for Number { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() } }
impl Default for Number { fn default() -> Self { todo!() } }
macro_rules! n { ($($t:ty)*) => { $(
impl From<$t> for Number { fn from(x: $t) -> Self { todo!() } }
impl std::convert::TryFrom<Number> for $t { type Error = String; fn try_from(x: Number) -> Result<Self, String> { todo!() } }
)* } }
n! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl From<f64> for Number { fn from(x: f64) -> Self { todo!() } }
impl From<f32> for Number { fn from(x: f32) -> Self { todo!() } }
impl From<Number> for f64 { fn from(x: Number) -> Self { todo!() } }
impl std::str::FromStr for Number { type Err = String; fn from_str(s: &str) -> Result<Self, String> { todo!() } }
macro_rules! o { ($($t:ident $f:ident $ta:ident $fa:ident)*) => { $(
impl ops::$t for Number { type Output = Number; fn $f(self, o: Number) -> Number { todo!() } }
impl ops::$ta for Number { fn $fa(&mut self, o: Number) { todo!() } }
)* } }
o! { Add add AddAssign add_assign Sub sub SubAssign sub_assign Mul mul MulAssign mul_assign Div div DivAssign div_assign }
impl ops::Neg for Number { type Output = Number; fn neg(self) -> Number { todo!() } }
impl ops::Rem for Number { type Output = Number; fn rem(self, o: Number) -> Number { todo!() } }
impl std::iter::Sum for Number { fn sum<I: Iterator<Item = Number>>(i: I) -> Number { todo!() } }
impl std::iter::Product for Number { fn product<I: Iterator<Item = Number>>(i: I) -> Number { todo!() } }

pub type Kstr<'a> = Cow<'a, str>;
#[derive(Debug, Clone, PartialEq)]
pub struct Kserd<'a> { id: Option<Cow<'a, str>>, pub val: Value<'a> }
#[derive(Debug, Clone, PartialEq)]
pub enum Value<'a> { Unit, Bool(bool), Num(Number), Str(Cow<'a, str>), Barr(Cow<'a, [u8]>), Tuple(Vec<Kserd<'a>>), Cntr(BTreeMap<Cow<'a, str>, Kserd<'a>>), Seq(Vec<Kserd<'a>>), Map(Vec<(Kserd<'a>, Kserd<'a>)>) }
#[derive(Debug)]
pub struct InvalidId;
#[derive(Debug)]
pub struct ToKserdErr;
impl From<InvalidId> for ToKserdErr { fn from(_: InvalidId) -> Self { todo!() } }
impl<'a> Kserd<'a> {
    pub fn new(v: Value<'a>) -> Self { todo!() }
    pub fn with_id<S: Into<Cow<'a, str>>>(id: S, v: Value<'a>) -> Result<Self, InvalidId> { todo!() }
    pub fn new_unit() -> Self { todo!() }
    pub fn new_bool(b: bool) -> Self { todo!() }
    pub fn new_str(s: &'a str) -> Self { todo!() }
    pub fn new_string<S: Into<String>>(s: S) -> Self { todo!() }
    pub fn as_str(&self) -> String { todo!() }
}
pub trait ToKserd<'a> { fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr>; }
