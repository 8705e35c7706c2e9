//! Model: version 4 UUIDs are pairwise distinct.
use std::sync::atomic::{AtomicU32, Ordering};
static N: AtomicU32 = AtomicU32::new(0);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Uuid(u32);
impl Uuid {
    pub fn new_v4() -> Self {
        Self(N.fetch_add(1, Ordering::Relaxed) + 1)
    }
}
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "00000000-0000-4000-8000-{:012}", self.0)
    }
}
