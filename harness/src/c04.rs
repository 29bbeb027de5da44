//! C04: the numbering follows the order of values.
#![allow(non_camel_case_types, non_snake_case)]
use std::convert::Infallible;
use std::num::*;
use std::cmp::Ordering;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

/// A smaller value has a smaller number, where `less` says what is smaller.
fn order<T: Ordinal>(less: impl Fn(&T, &T) -> bool) {
    let a: T = any();
    let b: T = any();
    if less(&a, &b) {
        check!(a.ordinal() < b.ordinal());
    }
    discard(a);
    discard(b);
}

macro_rules! lex {
    () => { false };
    (($x:expr, $y:expr) $($rest:tt)*) => {{
        let x = $x.ordinal();
        let y = $y.ordinal();
        x < y || x == y && lex!($($rest)*)
    }};
}

macro_rules! scalar {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn omv_order() { order::<$t>(|a, b| *a < *b) }
        }
    };
}
scalar!(bool_, bool);
scalar!(char_, char);
scalar!(u8_, u8);
scalar!(u16_, u16);
scalar!(u32_, u32);
scalar!(i8_, i8);
scalar!(i16_, i16);
scalar!(i32_, i32);

macro_rules! nonzero {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn omv_order() { order::<$t>(|a, b| a.get() < b.get()) }
        }
    };
}
nonzero!(nzu8, NonZeroU8);
nonzero!(nzu16, NonZeroU16);
nonzero!(nzu32, NonZeroU32);
nonzero!(nzu64, NonZeroU64);
nonzero!(nzusize, NonZeroUsize);
nonzero!(nzi8, NonZeroI8);
nonzero!(nzi16, NonZeroI16);
nonzero!(nzi32, NonZeroI32);
nonzero!(nzi64, NonZeroI64);
nonzero!(nzisize, NonZeroIsize);

pub mod ordering {
    use super::*;
    pub fn omv_order() {
        order::<Ordering>(|a, b| matches!((a, b), (Ordering::Less, Ordering::Equal) | (Ordering::Less, Ordering::Greater) | (Ordering::Equal, Ordering::Greater)))
    }
}

macro_rules! compound {
    ($m:ident, $t:ty, [$($g:ident)*], |$a:ident, $b:ident| $e:expr) => {
        pub mod $m {
            use super::*;
            pub fn omv_order<$($g: Ordinal),*>() { order::<$t>(|$a, $b| $e) }
        }
    };
}
compound!(option, Option<K>, [K], |a, b| match (a, b) {
    (None, Some(_)) => true,
    (Some(x), Some(y)) => x.ordinal() < y.ordinal(),
    _ => false,
});
compound!(result, Result<K0, K1>, [K0 K1], |a, b| match (a, b) {
    (Ok(_), Err(_)) => true,
    (Ok(x), Ok(y)) => x.ordinal() < y.ordinal(),
    (Err(x), Err(y)) => x.ordinal() < y.ordinal(),
    _ => false,
});
compound!(either, ::either::Either<K0, K1>, [K0 K1], |a, b| match (a, b) {
    (::either::Either::Left(_), ::either::Either::Right(_)) => true,
    (::either::Either::Left(x), ::either::Either::Left(y)) => x.ordinal() < y.ordinal(),
    (::either::Either::Right(x), ::either::Either::Right(y)) => x.ordinal() < y.ordinal(),
    _ => false,
});
compound!(boxed, Box<K>, [K], |a, b| (**a).ordinal() < (**b).ordinal());
compound!(array1, [K; 1], [K], |a, b| lex!((a[0], b[0])));
compound!(array2, [K; 2], [K], |a, b| lex!((a[0], b[0]) (a[1], b[1])));
compound!(array3, [K; 3], [K], |a, b| lex!((a[0], b[0]) (a[1], b[1]) (a[2], b[2])));
compound!(tuple1, (K0,), [K0], |a, b| lex!((a.0, b.0)));
compound!(tuple2, (K0, K1), [K0 K1], |a, b| lex!((a.0, b.0) (a.1, b.1)));
compound!(tuple3, (K0, K1, K2), [K0 K1 K2], |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2)));
compound!(tuple4, (K0, K1, K2, K3), [K0 K1 K2 K3], |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3)));
compound!(tuple5, (K0, K1, u8, K2, bool), [K0 K1 K2],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4)));
compound!(tuple6, (u8, (), K0, u8, K1, u8), [K0 K1],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5)));
compound!(tuple7, (u8, u8, u8, K0, u8, u8, ()), [K0],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6)));
compound!(tuple8, (K0, u8, u8, (), u8, u8, bool, u8), [K0],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7)));
compound!(tuple9, (u8, K0, (), u8, u8, (), u8, (), u8), [K0],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8)));
compound!(tuple10, (u8, (), u8, (), u8, (), u8, u8, (), u8), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9)));
compound!(tuple11, ((), u8, (), u8, (), u8, (), u8, (), u8, u8), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9) (a.10, b.10)));
compound!(tuple12, (u8, (), u8, (), u8, (), u8, (), u8, (), u8, ()), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9) (a.10, b.10) (a.11, b.11)));
compound!(tuple13, ((), u8, (), u8, (), u8, (), u8, (), u8, (), u8, ()), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9) (a.10, b.10) (a.11, b.11) (a.12, b.12)));
compound!(tuple14, (u8, (), u8, (), u8, (), u8, (), u8, (), u8, (), u8, ()), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9) (a.10, b.10) (a.11, b.11) (a.12, b.12) (a.13, b.13)));
compound!(tuple15, ((), u8, (), u8, (), u8, (), u8, (), u8, (), u8, (), u8, ()), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9) (a.10, b.10) (a.11, b.11) (a.12, b.12) (a.13, b.13) (a.14, b.14)));
compound!(tuple16, (u8, (), u8, (), u8, (), (), u8, (), u8, (), u8, (), u8, (), ()), [],
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2) (a.3, b.3) (a.4, b.4) (a.5, b.5) (a.6, b.6) (a.7, b.7) (a.8, b.8) (a.9, b.9) (a.10, b.10) (a.11, b.11) (a.12, b.12) (a.13, b.13) (a.14, b.14) (a.15, b.15)));

macro_rules! derived {
    ($m:ident, [$($g:ident)*], $item:item, |$a:ident, $b:ident| $e:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Ordinal)]
            $item
            pub fn omv_order<$($g: Ordinal),*>() { order::<W<$($g),*>>(|$a, $b| $e) }
        }
    };
}
derived!(s_tuple2, [K0 K1], pub struct W<K0: Ordinal, K1: Ordinal>(pub K0, pub K1);, |a, b| lex!((a.0, b.0) (a.1, b.1)));
derived!(s_tuple3, [K0 K1 K2], pub struct W<K0: Ordinal, K1: Ordinal, K2: Ordinal>(pub K0, pub K1, pub K2);,
    |a, b| lex!((a.0, b.0) (a.1, b.1) (a.2, b.2)));
derived!(s_named, [K0 K1], pub struct W<K0: Ordinal, K1: Ordinal> { pub z: K0, pub a: K1 }, |a, b| lex!((a.z, b.z) (a.a, b.a)));
derived!(s_named4, [K0 K1], pub struct W<K0: Ordinal, K1: Ordinal> { pub z: K0, pub y: Ordering, pub x: K1, pub w: bool },
    |a, b| lex!((a.z, b.z) (a.y, b.y) (a.x, b.x) (a.w, b.w)));

fn rank5(x: &enum5::W) -> usize { match x { enum5::W::E => 0, enum5::W::D => 1, enum5::W::C => 2, enum5::W::B => 3, enum5::W::A => 4 } }
derived!(enum5, [], pub enum W { E, D, C, B, A }, |a, b| rank5(a) < rank5(b));
fn rankd(x: &discriminants::W) -> usize { use discriminants::W; match x { W::A => 0, W::B => 1, W::C => 2, W::D => 3 } }
derived!(discriminants, [], #[repr(i8)] pub enum W { A = 5, B = -3, C = 0, D = 100 }, |a, b| rankd(a) < rankd(b));
fn rankf<K0: Ordinal>(x: &disc_fields::W<K0>) -> usize { use disc_fields::W; match x { W::A(..) => 0, W::B { .. } => 1, W::C => 2 } }
derived!(disc_fields, [K0], #[repr(u8)] pub enum W<K0: Ordinal> { A(K0) = 9, B { x: bool, y: K0 } = 4, C = 0 }, |a, b| match (a, b) {
    (W::A(x), W::A(y)) => lex!((x, y)),
    (W::B { x, y }, W::B { x: x2, y: y2 }) => lex!((x, x2) (y, y2)),
    _ => rankf(a) < rankf(b),
});
fn ranke<K0: Ordinal, K1: Ordinal, K2: Ordinal>(x: &enum_fields::W<K0, K1, K2>) -> usize {
    use enum_fields::W;
    match x { W::P(..) => 0, W::O => 1, W::N { .. } => 2, W::M() => 3, W::L(..) => 4 }
}
derived!(enum_fields, [K0 K1 K2], pub enum W<K0: Ordinal, K1: Ordinal, K2: Ordinal> { P(K0, K1), O, N { q: K2, p: K0 }, M(), L(K1) }, |a, b| match (a, b) {
    (W::P(x, y), W::P(x2, y2)) => lex!((x, x2) (y, y2)),
    (W::N { q, p }, W::N { q: q2, p: p2 }) => lex!((q, q2) (p, p2)),
    (W::L(x), W::L(y)) => lex!((x, y)),
    _ => ranke(a) < ranke(b),
});
fn rankm<K0: Ordinal>(x: &empty_inside::W<K0>) -> usize { use empty_inside::W; match x { W::A(..) => 0, W::B(..) => 1, W::C => 2, W::D(..) => 3 } }
derived!(empty_inside, [K0], pub enum W<K0: Ordinal> { A(K0), B(K0, Infallible), C, D(K0) }, |a, b| match (a, b) {
    (W::A(x), W::A(y)) => lex!((x, y)),
    (W::D(x), W::D(y)) => lex!((x, y)),
    _ => rankm(a) < rankm(b),
});
derived!(nested, [K0 K1], pub struct W<K0: Ordinal, K1: Ordinal>(pub Option<(K0, bool)>, pub [K1; 2]);, |a, b| {
    let r = match (&a.0, &b.0) {
        (None, Some(_)) => return true,
        (Some(_), None) => return false,
        (None, None) => true,
        (Some(x), Some(y)) => {
            if lex!((x.0, y.0) (x.1, y.1)) {
                return true;
            }
            x.0.ordinal() == y.0.ordinal() && x.1 == y.1
        }
    };
    r && lex!((a.1[0], b.1[0]) (a.1[1], b.1[1]))
});
