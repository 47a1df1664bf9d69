//! Deterministic simulation runtime: interposes the libc calls through which a Rust program meets
//! threads, time, randomness, the disk and other processes, and replaces each by a seeded simulation.
#![allow(static_mut_refs)]
#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]
#[macro_use]
pub mod shared;
#[macro_use]
pub mod sys;
pub mod fs;
pub mod intercept;
pub mod pipe;
pub mod run;
pub mod sched;
pub mod spawn;
