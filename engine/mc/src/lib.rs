//! A stateless bounded model checker for real code.
//!
//! An *execution* is one run of a closed driver; every source of nondeterminism
//! in it (which thread runs, which ready task is polled, which environment
//! answer arrives, which operation comes next) is resolved by `choose`/`free`.
//! `explore` enumerates **all** resolutions depth first (odometer order), with
//! at most `bound` deviations (non-default alternatives at `choose` points);
//! `free` points are enumerated completely and cost nothing.
pub mod explore;
pub mod mini;
pub mod sched;
pub use explore::*;
