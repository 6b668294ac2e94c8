//! Stand-in for comfy-table: signatures only, never run.
#![allow(unused)]
pub enum TableComponent { HorizontalLines, MiddleIntersections, LeftBorderIntersections, RightBorderIntersections }
pub struct Table(());
pub struct Row(());
pub struct Cell(());
impl<T: ToString> From<T> for Cell { fn from(t: T) -> Self { todo!() } }
impl<I: IntoIterator<Item = T>, T: Into<Cell>> From<I> for Row { fn from(t: I) -> Self { todo!() } }
impl Table {
    pub fn new() -> Self { todo!() }
    pub fn set_header<T: Into<Row>>(&mut self, r: T) -> &mut Self { todo!() }
    pub fn add_row<T: Into<Row>>(&mut self, r: T) -> &mut Self { todo!() }
    pub fn load_preset(&mut self, s: &str) -> &mut Self { todo!() }
    pub fn remove_style(&mut self, s: TableComponent) -> &mut Self { todo!() }
}
impl std::fmt::Display for Table { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
pub mod presets { pub const UTF8_FULL: &str = ""; }
