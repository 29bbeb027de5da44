use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

use crate::laws::*;

macro_rules! compound {
    ($m:ident, $t:ty, [$($g:ident)*]) => {
        pub mod $m {
            use super::*;
            pub fn omv_number<$($g: Ordinal),*>() { from_number::<$t>() }
            pub fn omv_value<$($g: Ordinal),*>() { from_value::<$t>() }
        }
    };
}
compound!(option, Option<A>, [A]);
compound!(result, Result<A, B>, [A B]);
compound!(either, ::either::Either<A, B>, [A B]);
compound!(boxed, Box<A>, [A]);
compound!(array0, [A; 0], [A]);
compound!(array1, [A; 1], [A]);
compound!(array2, [A; 2], [A]);
compound!(array3, [A; 3], [A]);
compound!(array4, [A; 4], [A]);
compound!(tuple0, (), []);
compound!(tuple1, (K0, ), [K0]);
compound!(tuple2, (K0, K1, ), [K0 K1]);
compound!(tuple3, (K0, K1, K2, ), [K0 K1 K2]);
compound!(tuple4, (K0, K1, K2, K3, ), [K0 K1 K2 K3]);
compound!(tuple5, (K0, K1, K2, K3, K4, ), [K0 K1 K2 K3 K4]);
compound!(tuple6, (K0, K1, K2, K3, K4, K5, ), [K0 K1 K2 K3 K4 K5]);

// longer tuples: a component of any type among small ones
compound!(tuple8, (u8, bool, K0, u8, (), u8, u8, K1), [K0 K1]);
compound!(tuple12, (K0, u8, (), u8, (), u8, (), (), u8, (), bool, ()), [K0]);
compound!(tuple16, ((), u8, (), u8, (), u8, (), (), u8, (), u8, (), u8, (), u8, ()), []);
compound!(nested, Option<Result<(K0, bool), [K1; 2]>>, [K0 K1]);
compound!(optopt, Option<Option<K0>>, [K0]);
compound!(empties, Result<Option<std::convert::Infallible>, (std::convert::Infallible, K0)>, [K0]);
compound!(no_array, [std::convert::Infallible; 3], []);

// every remaining arity and some longer arrays
compound!(tuple7, (K0, u8, (), u8, bool, u8, K1), [K0 K1]);
compound!(tuple9, (u8, K0, (), u8, u8, (), u8, (), bool), [K0]);
compound!(tuple10, (u8, (), u8, (), u8, (), u8, u8, (), u8), []);
compound!(tuple11, ((), u8, (), u8, (), u8, (), u8, (), u8, u8), []);
compound!(tuple13, ((), u8, (), u8, (), u8, (), u8, (), u8, (), u8, ()), []);
compound!(tuple14, (u8, (), u8, (), u8, (), u8, (), u8, (), u8, (), bool, ()), []);
compound!(tuple15, ((), u8, (), u8, (), u8, (), u8, (), u8, (), u8, (), bool, ()), []);
compound!(array7, [u8; 7], []);
compound!(array_bool, [bool; 4], []);
