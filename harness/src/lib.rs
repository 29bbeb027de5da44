#![allow(dead_code, unused_imports, unused_variables, clippy::all)]
pub mod rt;
pub mod walks;
pub mod laws;
pub mod models;
#[cfg(feature = "maps")]
pub mod gen_maps;
#[cfg(feature = "sets")]
pub mod gen_sets;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(any(feature = "c16", feature = "c17u", feature = "c18", feature = "c22"))]
pub mod api;
#[cfg(feature = "c21")]
pub mod c21;
