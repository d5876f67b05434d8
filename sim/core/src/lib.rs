//! The simulator core: a cooperative scheduler for real OS threads, and the
//! seams (SanitizerCoverage callbacks, libc symbol interposition, allocator,
//! output sinks) through which the library under test meets it.
//!
//! This crate is not instrumented.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod alloc;
pub mod atomics;
pub mod interpose;
pub mod raw;
pub mod rng;
pub mod rt;
pub mod sink;
mod weak;
pub mod world;
