//! Property harnesses.  Each `h_cNN_*` function is executed symbolically by /verif/engine over the
//! LLVM IR of this crate, knx-ip-client and std; bytes, lengths, times, faults and choices obtained
//! from `sym` are SMT variables.
#![allow(clippy::all)]
#![allow(static_mut_refs)]
pub mod sym;
pub mod util;
pub mod c_decode;
pub mod c_frames;
pub mod c_addr;
pub mod c_emi;
pub mod c_dpt;
pub mod c_dib;
pub mod net;
pub mod c_link;
pub mod c_request;
pub mod c_monitor;
pub mod c_life;
pub mod c_many;
