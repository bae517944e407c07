//! A file watcher whose events the test sends.
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
#[derive(Debug, Clone, Default)]
pub struct Event {
    pub paths: Vec<PathBuf>,
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "watch error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
pub trait Watcher {
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
}
type Handler = Arc<Mutex<dyn FnMut(Result<Event>) + Send>>;
thread_local! {
    /// The last watcher that this task made.
    pub static LAST: std::cell::RefCell<Option<Handler>> = const { std::cell::RefCell::new(None) };
}
pub struct RecommendedWatcher(#[allow(dead_code)] Handler);
pub fn recommended_watcher(f: impl FnMut(Result<Event>) + Send + 'static) -> Result<RecommendedWatcher> {
    let h: Handler = Arc::new(Mutex::new(f));
    LAST.with(|l| *l.borrow_mut() = Some(h.clone()));
    Ok(RecommendedWatcher(h))
}
impl Watcher for RecommendedWatcher {
    fn watch(&mut self, _: &Path, _: RecursiveMode) -> Result<()> {
        Ok(())
    }
}
