//! Contracts of flatdata-rs, discharged by Kani for the code in /repo.
#![allow(warnings)]
#![feature(allocator_api)]
#[macro_use]
extern crate flatdata;

#[cfg(kani)]
pub mod common;
#[cfg(all(kani, feature = "c01"))]
pub mod c01_read;
#[cfg(all(kani, feature = "c02"))]
pub mod c02_write;
#[cfg(all(kani, feature = "c03"))]
pub mod c03_struct;
#[cfg(all(kani, feature = "c04", not(feature = "panics")))]
pub mod c04_vector;
#[cfg(all(kani, feature = "c04", feature = "panics"))]
pub mod c04_panics;
#[cfg(all(kani, feature = "c05", not(feature = "panics")))]
pub mod c05_view;
#[cfg(all(kani, feature = "c05", feature = "panics"))]
pub mod c05_panics;
#[cfg(all(kani, feature = "c06"))]
pub mod c06_iter;
#[cfg(kani)]
pub mod contract;
#[cfg(kani)]
pub mod mock;
#[cfg(all(kani, feature = "c07"))]
pub mod c07_external;
#[cfg(all(kani, feature = "c08"))]
pub mod c08_multi;
#[cfg(all(kani, feature = "c09"))]
pub mod c09_view;
#[cfg(all(kani, feature = "c09", feature = "panics"))]
pub mod c09_panics;
#[cfg(all(kani, feature = "c10"))]
pub mod c10_container;
#[cfg(all(kani, feature = "c11"))]
pub mod c11_check;
#[cfg(all(kani, feature = "c12"))]
pub mod c12_faults;
#[cfg(all(kani, feature = "c18"))]
pub mod c18_drop;
#[cfg(all(kani, feature = "c18", feature = "panics"))]
pub mod c18_panics;
#[cfg(all(kani, any(feature = "c12", feature = "c13", feature = "c14", feature = "c15")))]
pub mod arch;
#[cfg(all(kani, feature = "c13"))]
pub mod c13_open;
#[cfg(all(kani, feature = "c14"))]
pub mod c14_create;
#[cfg(all(kani, feature = "c15"))]
pub mod c15_roundtrip;
