//! C21: what the derive generates means the same wherever it is used.  The
//! scopes below give other meanings to the names around the derived types; the
//! numbering laws must hold for the types all the same.
#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals, dead_code)]
use ordinal_map::Ordinal;
use crate::laws::*;
use crate::rt::*;
use crate::check;

/// every name is taken by something else
mod hostile {
    pub mod std { pub mod option { pub enum Option<T> { None, Some(T), Other } } }
    pub mod core {}
    pub mod ordinal_map { pub trait Ordinal { const ORDINAL_SIZE: usize = 7; fn ordinal(&self) -> usize { 3 } } }
    pub const rem: u8 = 1;
    pub const ordinal: u8 = 2;
    pub const f0: u8 = 1;
    pub const f1: u8 = 1;
    pub const x: u8 = 9;
    pub const ORDINAL_SIZE: u8 = 1;
    pub struct None;
    pub fn Some<T>(v: T) -> T { v }
    pub enum Option<T> { A(T) }
    pub enum Result {}
    pub trait Every {
        fn ordinal(&self) -> u8 { 9 }
        fn from_ordinal(n: u8) -> u8 { n }
        fn unwrap(self) -> u8 where Self: Sized { 1 }
        const ORDINAL_SIZE: u8 = 9;
    }
    impl<T> Every for T {}

    #[derive(::ordinal_map::Ordinal)]
    pub struct Pair<K0: ::ordinal_map::Ordinal, K1: ::ordinal_map::Ordinal>(pub K0, pub K1);
    #[derive(::ordinal_map::Ordinal)]
    pub struct Named<K0: ::ordinal_map::Ordinal, K1: ::ordinal_map::Ordinal> { pub x: K0, pub rem: K1, pub ordinal: bool }
    #[derive(::ordinal_map::Ordinal)]
    pub enum Sum<K0: ::ordinal_map::Ordinal, K1: ::ordinal_map::Ordinal> { None, Some(K0, bool), rem { x: K1, ordinal: bool }, ordinal, ORDINAL_SIZE(K0) }
}

/// inherent items that look like the trait's
mod inherent {
    use super::Ordinal;
    #[derive(Ordinal)]
    pub enum W<K0: Ordinal> { ordinal, from_ordinal(K0), ORDINAL_SIZE { ordinal: bool } }
    impl<K0: Ordinal> W<K0> {
        pub const ORDINAL_SIZE_: usize = 1;
        pub fn ordinal(&self) -> usize { 77 }
        pub fn from_ordinal(_: usize) -> Option<Self> { None }
    }
    #[derive(Ordinal)]
    pub struct S<K0: Ordinal, K1: Ordinal> { pub ordinal: K0, pub from_ordinal: K1 }
    impl<K0: Ordinal, K1: Ordinal> S<K0, K1> {
        pub const ORDINAL_SIZE: usize = 1;
        pub fn ordinal(&self) -> usize { 77 }
        pub fn from_ordinal(_: usize) -> Option<Self> { None }
    }
}

/// made by macros, names from both sides
mod macros {
    use super::Ordinal;
    macro_rules! mk_struct { ($n:ident, $f:ident, $t:ident, $u:ident) => {
        #[derive(Ordinal)]
        pub struct $n<$t: Ordinal, $u: Ordinal> { pub $f: $t, pub own: $u, pub rem: bool }
    } }
    mk_struct!(St, ordinal, K0, K1);
    macro_rules! mk_enum { ($n:ident, $v:ident, $f:ident, $t:ident) => {
        #[derive(Ordinal)]
        pub enum $n<$t: Ordinal> { $v { $f: $t, own: bool }, Own { own: $t }, Other(bool, $t), $f }
    } }
    mk_enum!(En, own, ordinal, K0);
    macro_rules! clash { ($f:ident, $t:ident) => {
        #[derive(Ordinal)]
        pub struct Two<$t: Ordinal> { pub $f: $t, pub other: bool }
        #[derive(Ordinal)]
        pub enum TwoE<$t: Ordinal> { V { a: bool, $f: $t }, W($t, bool) }
    } }
    clash!(a_, K0);
    macro_rules! variants { ($n:ident: $($v:ident),*) => {
        #[derive(Ordinal)]
        pub enum $n { $($v),* }
    } }
    variants!(Plain: rem, ordinal, f0, usize, None, Some);
}

/// names that need quoting
mod raw {
    use super::Ordinal;
    #[derive(Ordinal)]
    pub struct W<K0: Ordinal, K1: Ordinal> { pub r#type: K0, pub r#fn: bool, pub r#match: K1 }
    #[derive(Ordinal)]
    pub enum E<K0: Ordinal> { r#const { r#let: K0, r#if: bool }, r#while(K0), r#loop }
}

macro_rules! laws {
    ($m:ident, [$($g:ident)*], $size:expr, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn omv_number<$($g: Ordinal),*>() { from_number::<$t>() }
            pub fn omv_value<$($g: Ordinal),*>() { from_value::<$t>() }
            pub fn omv_size<$($g: Ordinal),*>() { let s = <$t as Ordinal>::ORDINAL_SIZE; check!(s == $size); }
        }
    };
}

laws!(hostile_pair, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE, hostile::Pair<K0, K1>);
laws!(hostile_named, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE * 2, hostile::Named<K0, K1>);
laws!(hostile_sum, [K0 K1], 2 + 3 * K0::ORDINAL_SIZE + 2 * K1::ORDINAL_SIZE, hostile::Sum<K0, K1>);
laws!(inherent_enum, [K0], 3 + K0::ORDINAL_SIZE, inherent::W<K0>);
laws!(inherent_struct, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE, inherent::S<K0, K1>);
laws!(macro_struct, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE * 2, macros::St<K0, K1>);
laws!(macro_enum, [K0], K0::ORDINAL_SIZE * 5 + 1, macros::En<K0>);
laws!(macro_two, [K0], K0::ORDINAL_SIZE * 2, macros::Two<K0>);
laws!(macro_two_enum, [K0], K0::ORDINAL_SIZE * 4, macros::TwoE<K0>);
laws!(macro_plain, [], 6, macros::Plain);
laws!(raw_struct, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE * 2, raw::W<K0, K1>);
laws!(raw_enum, [K0], K0::ORDINAL_SIZE * 3 + 1, raw::E<K0>);
