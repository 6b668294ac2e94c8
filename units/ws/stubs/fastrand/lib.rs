//! Stand-in for fastrand 1: signatures only, never run.
#![allow(unused)]
use std::ops::RangeBounds;
pub struct Rng(std::cell::Cell<u64>);
impl Rng { pub fn new() -> Self { todo!() } pub fn with_seed(s: u64) -> Self { todo!() } pub fn f64(&self) -> f64 { todo!() } }
pub fn f64() -> f64 { todo!() }
pub fn u64<R: RangeBounds<u64>>(r: R) -> u64 { todo!() }
