//! Environment model that stands in for `tokio` while the knx-ip-client sources are encoded.
//! Sockets, clock, scheduler and channels become data the harness controls (`verif`), so that
//! datagrams, faults, time and schedules can be symbolic.  See DESIGN.md section "Environment".
#![allow(static_mut_refs)]
#![allow(clippy::all)]

pub mod verif;
pub mod net;
pub mod sync;
pub mod time;
pub mod task;
pub mod runtime;
#[doc(hidden)]
pub mod macros;

pub use task::spawn;

pub mod io {
    pub use std::io::{Error, ErrorKind, Result};
}

