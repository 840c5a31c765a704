//! Stand-in with just the fixture helpers the unit tests of mango-v4 use.
use std::path::{Path, PathBuf};
pub fn find_file(name: &str) -> Option<PathBuf> {
    let p = Path::new("/repo/programs/mango-v4").join(name);
    p.exists().then_some(p)
}
pub fn read_file<P: AsRef<Path>>(p: P) -> Vec<u8> {
    std::fs::read(p).unwrap()
}
