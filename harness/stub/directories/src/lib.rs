//! Stand-in for `directories`: the cache directory is one that the check provides.
use std::cell::RefCell;
use std::path::{Path, PathBuf};

thread_local! {
    static CACHE: RefCell<Option<PathBuf>> = RefCell::new(None);
}

/// The cache directory from now on; none if there is no home.
pub fn set_cache(p: Option<PathBuf>) {
    CACHE.with(|c| *c.borrow_mut() = p);
}

#[derive(Clone, Debug)]
pub struct ProjectDirs {
    cache: PathBuf,
    other: PathBuf,
}

impl ProjectDirs {
    pub fn from(_: &str, _: &str, name: &str) -> Option<ProjectDirs> {
        CACHE.with(|c| c.borrow().as_ref().map(|p| ProjectDirs { cache: p.join(name), other: p.join("other").join(name) }))
    }
    pub fn cache_dir(&self) -> &Path {
        &self.cache
    }
    pub fn config_dir(&self) -> &Path {
        &self.other
    }
    pub fn data_dir(&self) -> &Path {
        &self.other
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.other
    }
    pub fn state_dir(&self) -> Option<&Path> {
        Some(&self.other)
    }
}
