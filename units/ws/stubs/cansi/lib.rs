//! Stand-in for cansi 2.2 (v3 API): signatures only, never run.
#![allow(unused)]
pub mod v3 {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Color { Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan, BrightWhite }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Intensity { Normal, Bold, Faint }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct CategorisedSlice<'text> { pub text: &'text str, pub start: usize, pub end: usize, pub fg: Option<Color>, pub bg: Option<Color>, pub intensity: Option<Intensity>, pub italic: Option<bool>, pub underline: Option<bool>, pub blink: Option<bool>, pub reversed: Option<bool>, pub hidden: Option<bool>, pub strikethrough: Option<bool> }
    pub type CategorisedSlices<'text> = Vec<CategorisedSlice<'text>>;
    pub type CategorisedLine<'text> = Vec<CategorisedSlice<'text>>;
    pub struct CategorisedLineIterator<'text, 'a>(&'a [CategorisedSlice<'text>]);
    impl<'text, 'a> Iterator for CategorisedLineIterator<'text, 'a> { type Item = CategorisedLine<'text>; fn next(&mut self) -> Option<Self::Item> { todo!() } }
    pub fn categorise_text(text: &str) -> CategorisedSlices<'_> { todo!() }
    pub fn line_iter<'text, 'a>(s: &'a [CategorisedSlice<'text>]) -> CategorisedLineIterator<'text, 'a> { todo!() }
}
