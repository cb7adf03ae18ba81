//! Stand-in for the mpz crates: the ideal functionality of every two-party protocol they implement.
//!
//! Both parties live in one process.  Their virtual machines hold the same memory in the clear; a
//! party's private inputs reach the other machine when both synchronise (`flush` or `execute`).
//! What a party of the real protocols would learn is what it decodes; every machine records that.
pub mod circuits;
pub mod common;
pub mod convert;
pub mod core;
pub mod fields;
pub mod hash;
pub mod memory;
pub mod serio;
pub mod vm;
