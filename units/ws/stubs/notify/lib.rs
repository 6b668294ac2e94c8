//! Stand-in for notify 4: signatures only, never run.
#![allow(unused)]
use std::{path::{Path, PathBuf}, sync::mpsc::Sender, time::Duration};
#[derive(Debug)]
pub enum Error { Generic(String), Io(std::io::Error), PathNotFound, WatchNotFound }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
pub enum DebouncedEvent { NoticeWrite(PathBuf), NoticeRemove(PathBuf), Create(PathBuf), Write(PathBuf), Chmod(PathBuf), Remove(PathBuf), Rename(PathBuf, PathBuf), Rescan, Error(Error, Option<PathBuf>) }
pub enum RecursiveMode { Recursive, NonRecursive }
pub struct RecommendedWatcher(());
pub trait Watcher { fn watch<P: AsRef<Path>>(&mut self, p: P, m: RecursiveMode) -> Result<()>; }
impl Watcher for RecommendedWatcher { fn watch<P: AsRef<Path>>(&mut self, p: P, m: RecursiveMode) -> Result<()> { todo!() } }
pub fn watcher(tx: Sender<DebouncedEvent>, delay: Duration) -> Result<RecommendedWatcher> { todo!() }
