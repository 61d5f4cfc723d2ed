#![allow(clippy::all)]
pub mod alloc;
pub mod bits;
pub mod engine;
pub mod props;
