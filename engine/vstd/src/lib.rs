//! Stand-in for `std` in the checked build (`extern crate vstd as std;`): the
//! synchronization primitives become scheduling points of the explorer when the
//! current thread runs under it, and are the real ones otherwise.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    mod prims;
    pub use prims::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
    pub mod atomic;
    pub mod mpsc;
}
pub mod thread;
