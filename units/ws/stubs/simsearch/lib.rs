//! Stand-in for simsearch: signatures only, never run.
#![allow(unused)]
pub struct SimSearch<T>(Vec<T>);
impl<T: Eq + std::hash::Hash + Clone> SimSearch<T> {
    pub fn new() -> Self { todo!() }
    pub fn insert(&mut self, id: T, s: &str) { todo!() }
    pub fn search(&self, s: &str) -> Vec<T> { todo!() }
}
