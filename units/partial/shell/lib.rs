//! The modules of /repo/ogma-shell that compile without the git dependencies, unmodified.
#![allow(dead_code, unused_imports)]

// `::libs::crossbeam` is this crate's re-export, as /repo/libs/lib.rs does it
// (that crate itself re-exports the unavailable `divvy`).
extern crate self as libs;
pub use crossbeam;

mod interface {
    #[path = "/repo/ogma-shell/interface/completions.rs"]
    pub(crate) mod completions;
    #[path = "/repo/ogma-shell/interface/events.rs"]
    pub(crate) mod events;
    #[path = "/repo/ogma-shell/interface/history.rs"]
    pub(crate) mod history;
    #[path = "/repo/ogma-shell/interface/input.rs"]
    pub(crate) mod input;
    #[path = "/repo/ogma-shell/interface/theme.rs"]
    pub(crate) mod theme;

    use input::InputBuffer;
}

/// Monomorphic observers for the analysis: never run, only analysed.
mod vspec {
    use crate::interface::input::InputBuffer;
    pub fn text(b: &InputBuffer) -> String { b.buffer(..) }
    pub fn chars(b: &InputBuffer) -> &[char] { b.chars(..) }
    pub fn text_before(b: &InputBuffer) -> String { b.buffer(..b.ch_pos()) }
}
