//! The module of /repo/bin that compiles without the git dependencies, unmodified.
#![allow(dead_code)]

#[path = "/repo/bin/app.rs"]
mod app;
