//! Stand-in for kdr-aus/table: signatures only, never run.
#![allow(unused)]
use kserd::Number;
use divvy::Str;
#[derive(Debug, Clone, PartialEq, PartialOrd)]
pub enum Entry<T> { Nil, Num(Number), Obj(T) }
impl<T> Default for Entry<T> { fn default() -> Self { todo!() } }
impl<T> Entry<T> { pub fn is_nil(&self) -> bool { todo!() } pub fn is_num(&self) -> bool { todo!() } pub fn is_obj(&self) -> bool { todo!() } }
impl<T> From<Number> for Entry<T> { fn from(n: Number) -> Self { todo!() } }
#[derive(Debug, Clone, PartialEq)]
pub struct Table<T> { pub name: String, pub header: bool, data: Vec<Entry<T>> }
pub type DataTable = Table<Str>;
impl<T> Default for Table<T> { fn default() -> Self { todo!() } }
impl<T> From<Vec<Vec<Entry<T>>>> for Table<T> { fn from(x: Vec<Vec<Entry<T>>>) -> Self { todo!() } }
pub type RowIter<'a, T> = std::slice::Iter<'a, Entry<T>>;
impl<T: Clone> Table<T> { pub fn clone_with_col_capacity(&self, n: usize) -> Self { todo!() } }
pub struct Rows<'a, T>(&'a T);
impl<'a, T> Iterator for Rows<'a, T> { type Item = RowIter<'a, T>; fn next(&mut self) -> Option<Self::Item> { todo!() } }
impl<'a, T> ExactSizeIterator for Rows<'a, T> {}
impl<T> Table<T> {
    pub fn new() -> Self { todo!() }
    pub fn is_empty(&self) -> bool { todo!() }
    pub fn rows_len(&self) -> usize { todo!() }
    pub fn cols_len(&self) -> usize { todo!() }
    pub fn row(&self, i: usize) -> Option<RowIter<'_, T>> { todo!() }
    pub fn col(&self, i: usize) -> Option<RowIter<'_, T>> { todo!() }
    pub fn rows(&self) -> Rows<'_, T> { todo!() }
    pub fn cols(&self) -> Rows<'_, T> { todo!() }
    pub fn remove_row(&mut self, i: usize) { todo!() }
    pub fn remove_col(&mut self, i: usize) { todo!() }
    pub fn reverse_rows(&mut self) { todo!() }
    pub fn reverse_cols_par(&mut self) { todo!() }
    pub fn into_raw(self) -> Vec<Vec<Entry<T>>> { todo!() }
    pub fn map_obj<U, F: FnMut(T) -> U>(self, f: F) -> Table<U> { todo!() }
    pub fn row_mut(&mut self, i: usize) -> Option<std::slice::IterMut<'_, Entry<T>>> { todo!() }
    pub fn col_mut(&mut self, i: usize) -> Option<std::slice::IterMut<'_, Entry<T>>> { todo!() }
    pub fn add_row<I: Iterator<Item = E>, E: Into<Entry<T>>>(&mut self, i: I) { todo!() }
    pub fn add_rows<I: Iterator<Item = R>, R: Iterator<Item = E>, E: Into<Entry<T>>>(&mut self, i: I) { todo!() }
    pub fn add_col<I: Iterator<Item = E>, E: Into<Entry<T>>>(&mut self, i: I) { todo!() }
    pub fn add_cols<I: Iterator<Item = R>, R: Iterator<Item = E>, E: Into<Entry<T>>>(&mut self, i: I) { todo!() }
    pub fn dedup_by<F: FnMut(&[Entry<T>], &[Entry<T>]) -> bool>(&mut self, f: F) { todo!() }
    pub fn retain_rows<F: FnMut(usize, &[Entry<T>]) -> bool>(&mut self, f: F) { todo!() }
    pub fn remove_col_par(&mut self, i: usize) { todo!() }
    pub fn sort<F: Fn(&Entry<T>, &Entry<T>) -> std::cmp::Ordering>(&mut self, col: usize, f: F) { todo!() }
}
pub fn parse_dsv(delim: char, s: &str) -> DataTable { todo!() }
