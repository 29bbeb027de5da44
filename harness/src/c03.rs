//! C03: derived key types.  The derive is applied to witness shapes whose
//! field types are arbitrary key types; what it generates for them is
//! analysed.
#![allow(non_camel_case_types, non_snake_case)]
use std::convert::Infallible;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::laws::*;
use crate::{assume, check};

macro_rules! derived {
    ($m:ident, [$($g:ident)*], $size:expr, $item:item) => {
        pub mod $m {
            use super::*;
            #[derive(Ordinal)]
            $item
            pub fn omv_number<$($g: Ordinal),*>() { from_number::<W<$($g),*>>() }
            pub fn omv_value<$($g: Ordinal),*>() { from_value::<W<$($g),*>>() }
            pub fn omv_size<$($g: Ordinal),*>() { let s = <W<$($g),*> as Ordinal>::ORDINAL_SIZE; check!(s == $size); }
        }
    };
}

derived!(unit, [], 1, pub struct W;);
derived!(braces, [], 1, pub struct W {});
derived!(parens, [], 1, pub struct W(););
derived!(tuple1, [K], K::ORDINAL_SIZE, pub struct W<K: Ordinal>(pub K););
derived!(tuple2, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE, pub struct W<K0: Ordinal, K1: Ordinal>(pub K0, pub K1););
derived!(tuple3, [K0 K1 K2], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE * K2::ORDINAL_SIZE,
    pub struct W<K0: Ordinal, K1: Ordinal, K2: Ordinal>(pub K0, pub K1, pub K2););
derived!(named1, [K0], K0::ORDINAL_SIZE, pub struct W<K0: Ordinal> { pub a: K0 });
derived!(named2, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE, pub struct W<K0: Ordinal, K1: Ordinal> { pub b: K0, pub a: K1 });
derived!(named4, [K0 K1], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE * 6, pub struct W<K0: Ordinal, K1: Ordinal> { pub z: K0, pub y: std::cmp::Ordering, pub x: K1, pub w: bool });
derived!(words, [K0], K0::ORDINAL_SIZE * 16, pub struct W<K0: Ordinal> { pub ordinal: bool, pub rem: K0, pub size: bool, pub f0: (bool, bool) });
derived!(no_values, [K0], 0, pub struct W<K0: Ordinal> { pub a: K0, pub b: Infallible });
derived!(no_values2, [K0 K1], 0, pub struct W<K0: Ordinal, K1: Ordinal>(pub Infallible, pub K0, pub K1););
derived!(empty, [], 0, pub enum W {});
derived!(enum1, [], 1, pub enum W { A });
derived!(enum2, [], 2, pub enum W { A, B });
derived!(enum5, [], 5, pub enum W { A, B, C, D, E });
derived!(discriminants, [], 4, #[repr(i8)] pub enum W { A = 5, B = -3, C = 0, D = 100 });
derived!(enum_one_field, [K0], K0::ORDINAL_SIZE, pub enum W<K0: Ordinal> { A(K0) });
derived!(enum_fields, [K0 K1], 1 + K0::ORDINAL_SIZE + K1::ORDINAL_SIZE, pub enum W<K0: Ordinal, K1: Ordinal> { A(K0), B, C(K1) });
derived!(enum_named, [K0 K1 K2], K0::ORDINAL_SIZE * K1::ORDINAL_SIZE + 2 + K2::ORDINAL_SIZE,
    pub enum W<K0: Ordinal, K1: Ordinal, K2: Ordinal> { A { x: K0, y: K1 }, B, C(), D { z: K2 } });
derived!(enum_products, [K0 K1], 3 * K0::ORDINAL_SIZE + 2 * K1::ORDINAL_SIZE + 1,
    pub enum W<K0: Ordinal, K1: Ordinal> { A(std::cmp::Ordering, K0), B {}, C(K1, bool) });
derived!(enum_first_empty, [K0], 1 + K0::ORDINAL_SIZE, pub enum W<K0: Ordinal> { A(Infallible), B, C(K0) });
derived!(enum_mid_empty, [K0], 1 + K0::ORDINAL_SIZE, pub enum W<K0: Ordinal> { A(K0), B { a: bool, b: Infallible }, C });
derived!(enum_last_empty, [K0], 2 * K0::ORDINAL_SIZE, pub enum W<K0: Ordinal> { A(K0, bool), B(K0, Infallible) });
derived!(enum_all_empty, [], 0, pub enum W { A(Infallible), B(Infallible, bool) });
derived!(enum_same, [K0], 3 * K0::ORDINAL_SIZE, pub enum W<K0: Ordinal> { A(K0), B(K0), C { c: K0 } });
derived!(enum_words, [K0], 2 * K0::ORDINAL_SIZE + 2, pub enum W<K0: Ordinal> { None, Some(K0), Ok { ordinal: K0 }, Err { rem: () } });
derived!(nested, [K0 K1], 2 * (1 + K0::ORDINAL_SIZE) + K1::ORDINAL_SIZE, pub enum W<K0: Ordinal, K1: Ordinal> { A(Option<K0>, bool), B(Result<K1, Infallible>) });
derived!(arrays, [K0], 8 * K0::ORDINAL_SIZE * K0::ORDINAL_SIZE, pub struct W<K0: Ordinal>(pub [K0; 2], pub [bool; 3]););

/// a type derived from derived ones
pub mod layers {
    use super::*;
    #[derive(Ordinal)]
    pub enum Inner<K0: Ordinal> { X, Y(K0) }
    #[derive(Ordinal)]
    pub struct W<K0: Ordinal> { pub a: Inner<K0>, pub b: Inner<bool> }
    pub fn omv_number<K0: Ordinal>() { from_number::<W<K0>>() }
    pub fn omv_value<K0: Ordinal>() { from_value::<W<K0>>() }
    pub fn omv_size<K0: Ordinal>() { let s = <W<K0> as Ordinal>::ORDINAL_SIZE; check!(s == (1 + K0::ORDINAL_SIZE) * 3); }
}
