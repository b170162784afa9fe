//! Recorder library: drives the real `chf` crate from a plan and writes what it observed.
//! It judges nothing; the TLA+ specifications do.
pub mod arena;
pub mod data;
#[cfg(feature = "user")]
#[macro_use]
pub mod user;
pub mod kinds;
pub mod out;
