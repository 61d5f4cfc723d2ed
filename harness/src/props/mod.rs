//! The properties. Each one is a cargo feature, so that a check compiles only
//! what it runs.
#![allow(dead_code, unused_imports)]
use crate::engine::Prop;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c21"))]
pub mod bitvec;
#[cfg(any(feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c20", feature = "c24", feature = "c25"))]
pub mod ints;
#[cfg(feature = "c10")]
pub mod mem;
#[cfg(feature = "c25")]
pub mod own;
#[cfg(any(feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19"))]
pub mod rank;
#[cfg(feature = "c20")]
pub mod space;
#[cfg(feature = "c24")]
pub mod threads;
#[cfg(any(feature = "c04", feature = "c05", feature = "c06", feature = "c07", feature = "c08", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c20", feature = "c24", feature = "c25"))]
pub mod views;
#[cfg(feature = "c09")]
pub mod words;
#[cfg(any(feature = "c22", feature = "c23"))]
pub mod xtask;

pub fn all() -> Vec<&'static Prop> {
    vec![
        #[cfg(feature = "c01")]
        &bitvec::C01P,
        #[cfg(feature = "c02")]
        &bitvec::C02P,
        #[cfg(feature = "c03")]
        &bitvec::C03P,
        #[cfg(feature = "c04")]
        &views::C04P,
        #[cfg(feature = "c05")]
        &views::C05P,
        #[cfg(feature = "c06")]
        &views::C06P,
        #[cfg(feature = "c07")]
        &views::C07P,
        #[cfg(feature = "c08")]
        &views::C08P,
        #[cfg(feature = "c09")]
        &words::C09P,
        #[cfg(feature = "c10")]
        &mem::C10P,
        #[cfg(feature = "c11")]
        &ints::C11P,
        #[cfg(feature = "c12")]
        &ints::C12P,
        #[cfg(feature = "c13")]
        &ints::C13P,
        #[cfg(feature = "c14")]
        &ints::C14P,
        #[cfg(feature = "c15")]
        &rank::C15P,
        #[cfg(feature = "c16")]
        &rank::C16P,
        #[cfg(feature = "c17")]
        &rank::C17P,
        #[cfg(feature = "c18")]
        &rank::C18P,
        #[cfg(feature = "c19")]
        &rank::C19P,
        #[cfg(feature = "c20")]
        &space::C20P,
        #[cfg(feature = "c21")]
        &bitvec::C21P,
        #[cfg(feature = "c22")]
        &xtask::C22P,
        #[cfg(feature = "c23")]
        &xtask::C23P,
        #[cfg(feature = "c24")]
        &threads::C24P,
        #[cfg(feature = "c25")]
        &own::C25P,
    ]
}
